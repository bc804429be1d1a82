# properties of the built-in contracts
T_BUILTIN = "TLA+ specification Builtin checked with TLC; TLC behaviours replayed into a real node (chain, VM, built-in contracts)"
N_BUILTIN = ("Exhaustive for the specification within small constants; the code is compared with seeded behaviours of it, state by state. "
             "Three users; SBP statistics are scripted; current upgrade rules only.")

prop("C15", "Staked VITE stays the staker's, is locked until its height, and comes back exactly once",
     "VITE staked for quota (StakeForQuota, its callback form, the older Stake and DelegateStake) leaves the staker's balance and is held by the quota contract: the contract's balance is always the sum of the stakings it lists plus what it is about to return. "
     "A staking is listed for its staker with its amount, beneficiary, expiration height and id, and counts towards the quota of its beneficiary; a staking below the minimum or with an illegal height is refused. "
     "It can be cancelled only by the staker (or the delegating agent), only once its expiration height is reached, and only for what it still holds; the amount then returns to the staker exactly once. A failed call returns what was sent with it. "
     "Callback stakings and cancellations tell the caller the true result. All of this survives rollbacks and restarts.",
     ["histories", "inputs"], "every sequence of staking and cancelling calls by any users, in any order of receives, with snapshots, rollbacks and restarts in between",
     "contract tests run each method once against a mock database with a fixed state; keys, indexes and expiry over interleaved stakings, partial cancellations and rollbacks are not explored",
     ["vm/contracts/contracts_quota.go", "vm/contracts/abi/abi_quota.go", "ledger/chain/vm_state.go", "vm/vm.go", "rpcapi/api/quota.go"],
     [{"name": "quota contract methods", "where": "vm/contracts/contracts_quota.go"}, {"name": "staking storage and lists", "where": "vm/contracts/abi/abi_quota.go"}],
     T_BUILTIN, N_BUILTIN, observe=["GetStakeInfoList", "GetStakeBeneficialAmount", "GetStakeListByPage", "GetStakeInfo", "balances"])

prop("C16", "SBP registration, votes and rewards follow the rules of the governance contract",
     "An SBP name belongs to the account that registered it with the exact stake; only that account can update, revoke or re-register it, and a block producing address, once used, never serves another name. "
     "The stake returns to its owner exactly once, on a revocation after the lock height. A vote counts for a registered, active name, one per account, and can be replaced and cancelled. "
     "A reward can be withdrawn only for the owner or the withdraw address, goes to the named receiver and pays exactly the days that are over and were not paid yet, according to the SBP statistics; each day is paid at most once per name. "
     "Registrations, votes and balances read at any snapshot are those of that snapshot; everything survives rollbacks and restarts.",
     ["histories", "inputs", "schedules"], "every sequence of governance calls by any users, in any order of receives, with snapshots, rollbacks and restarts in between",
     "tests call each method once on a mock state; withdrawals, revocations and re-registrations interleaved over days and rollbacks are not explored",
     ["vm/contracts/contracts_governance.go", "vm/contracts/abi/abi_governance.go", "vm/util/consensus_reader.go", "ledger/chain/vm_state.go"],
     [{"name": "governance methods and reward calculation", "where": "vm/contracts/contracts_governance.go"}],
     T_BUILTIN, N_BUILTIN, observe=["GetRegisterList", "GetAllRegisterList", "GetVoteList", "balances"])

prop("C17", "Tokens obey their issuance rules",
     "The recorded supply of an issued token always equals what accounts hold plus what is on its way, never exceeds its maximum, and is created only by issuing it (against the fee) or by its owner re-issuing it. "
     "Burning removes exactly the burnt amount from the supply, and only the owner may burn an owner-burn-only token. Only the owner can transfer the ownership or switch off re-issuance, which is final. "
     "Token ids and symbol indexes are never shared by two tokens; the token list, the list per owner and the information callback agree with the token records, each change leaves exactly its event, and a failed call returns what was sent with it. All of this survives rollbacks and restarts.",
     ["histories", "inputs"], "every sequence of asset contract calls by any users, in any order of receives, with snapshots, rollbacks and restarts in between",
     "tests mint and re-issue one token against a mock database",
     ["vm/contracts/contracts_asset.go", "vm/contracts/abi/abi_asset.go", "ledger/chain/vm_state.go"],
     [{"name": "asset contract methods", "where": "vm/contracts/contracts_asset.go"}],
     T_BUILTIN, N_BUILTIN, observe=["GetTokenInfoById", "GetAllTokenInfo", "balances", "vm logs"])

prop("C14", "Quota accounting is a function of the ledger",
     "The quota an account may spend is exactly what its stake grants over the last 75 snapshots minus what its blocks confirmed in them used, minus its unconfirmed blocks, capped per block, plus what proof of work adds - once per account and snapshot. "
     "The recorded usage window per account and the global usage always describe the blocks of the ledger, after any history of blocks, snapshots, partial confirmations, rollbacks of any depth and restarts: two nodes with the same ledger compute the same quota. "
     "A block is accepted if and only if that quota covers it, and is recorded with the quota it used.",
     ["histories", "inputs"], "every history of blocks, snapshots, rollbacks and restarts, every account",
     "quota tests evaluate the formula on a few literal windows; the window is maintained incrementally and rebuilt from disk after rollbacks, which needs histories",
     ["ledger/chain/cache/quota_list.go", "vm/quota/quota.go", "vm/util/quota.go", "vm/vm.go", "ledger/chain/delete.go", "ledger/chain/cache/snapshot_block.go"],
     [{"name": "incremental quota window", "where": "ledger/chain/cache/quota_list.go"}, {"name": "quota formula", "where": "vm/quota/quota.go"}],
     "TLA+ specification Quota checked with TLC; TLC behaviours replayed into a real node (chain, VM, verifier)",
     "Exhaustive for the specification within small constants; the code is compared with seeded behaviours of it, state by state (up to 2000 snapshots, rollbacks beyond the redo logs). Four users with different stakes; congestion pricing and contract accounts are not modelled.",
     observe=["GetQuotaUsedList", "GetGlobalQuota", "GetStakeQuota", "GetQuotaUnused", "AccountBlock.Quota"])

prop("C09", "The pool's fork tree keeps every branch intact",
     "The tree of blocks that wait for insertion always holds a main branch that joins the chain on disk exactly at its tip, and every received block that was not refused stays reachable: on some branch, with exactly its ancestors before it, down to the chain on disk. "
     "Looking up a height on a branch, asking where a branch contains a block, finding the fork point of two branches and the longest branch give the answers the blocks' parent links imply. "
     "Adding blocks, inserting them on disk, rolling the disk back, switching the main branch, dropping it and pruning - in any order - change which branch is main and what is on disk and nothing else; pruning removes only branches that ended or left the root, never the main branch.",
     ["histories"], "every history of additions, insertions, rollbacks, switches and prunings over any tree of forks",
     "tree tests build two or three fixed branches and switch once; re-rooting goes wrong only for particular shapes and orders",
     ["ledger/pool/tree", "ledger/pool/chain_pool.go", "ledger/pool/blockpool.go"],
     [{"name": "branch re-rooting and pruning", "where": "ledger/pool/tree/tree_impl.go"}, {"name": "branch lookup", "where": "ledger/pool/tree/branch.go"}],
     "TLA+ specification Tree checked with TLC; TLC behaviours replayed into the pool's tree",
     "Exhaustive for the specification with six blocks; the code is compared with seeded behaviours, state by state.",
     observe=["tree.Main, Branches, SwitchMainTo, RootHeadAdd, RootTailRemove, PruneTree, FindForkPointFromMain, LongestBranch"])

prop("C10", "A batch inserts no block before what it depends on",
     "A block joins an insertion batch only if everything it refers to - its predecessor, the send it receives, the blocks a snapshot confirms - is in the ledger or already in the batch; otherwise it is refused and the batch is unchanged. "
     "Executing a batch, with accounts handled concurrently, runs every block exactly once and starts none before all it depends on have finished; blocks of one account run in chain order; a snapshot block runs alone, after everything put before it and before everything put after it. "
     "If an insertion fails, nothing that depends on it is run.",
     ["histories", "schedules"], "every dependency graph, every order of joining, every interleaving of the workers",
     "batch tests build two or three small batches and print them; the order depends on the dependency graph and on scheduling",
     ["ledger/pool/batch"],
     [{"name": "levels and buckets", "where": "ledger/pool/batch/batch_impl.go"}, {"name": "concurrent execution", "where": "ledger/pool/batch/batch_executor_impl.go"}],
     "TLA+ specification Batch checked with TLC; TLC behaviours replayed into the pool's batches with delayed workers",
     "Exhaustive for the specification with six blocks; the code is compared with seeded behaviours over seven accounts; schedules are those the Go runtime takes under random delays.",
     observe=["Batch.AddAItem, AddSItem, Batch, Size, Info"])

T_CONS = "TLA+ specification Consensus checked with TLC; TLC behaviours replayed into the consensus module over a stand-in ledger"
N_CONS = ("Exhaustive for the specification within small constants; the code is compared with seeded behaviours of it. The ledger's registrations, votes, balances and snapshot blocks are scripted; "
          "groups of 3 to 6 members; the pseudo-random permutation is Go's generator, tabulated. Wall-clock triggering of producers is not covered.")
prop("C11", "The right to produce a block is a function of the chain",
     "The turns of every period - which producer, from when to when, for the snapshot group and for contract groups - are determined by the chain up to the deciding snapshot block: the candidates registered there ranked by votes, the success rates of the last 48 periods, which let up to two members below the line give way to better candidates, the bounded random promotion and the seed. "
     "Turns do not overlap, lie within their period, and name elected candidates only; a snapshot block is accepted only from the producer whose turn starts exactly at its timestamp, a contract block only from an elected member. "
     "The answer is the same whatever was asked before, after any growth, rollback, fork switch of the chain and after restarts: all nodes with the same chain agree.",
     ["histories", "inputs"], "every chain of snapshot blocks, every history of forks, rollbacks, restarts and queries, every set of registrations and votes",
     "election tests run one vote list through the algorithm; cached election results across forks and restarts are not tested",
     ["ledger/consensus", "ledger/consensus/core", "ledger/consensus/cdb"],
     [{"name": "election algorithm", "where": "ledger/consensus/core/vote_algo.go"}, {"name": "elections and their caches", "where": "ledger/consensus/consensus_snapshot.go"}, {"name": "plans", "where": "ledger/consensus/core/group.go"}],
     T_CONS, N_CONS, observe=["ReadByIndex", "VerifySnapshotProducer", "VerifyAccountProducer", "VerifyABsProducer", "ReadVoteMap"])

prop("C12", "Producer statistics count the blocks of the chain",
     "For every period, hour and day the statistics of block producers are exactly the turns assigned and the blocks produced on the current chain, the success rates are their quotients over the last 48 periods, and the daily votes are those at the last snapshot block of the day, for the names that own the producing addresses. "
     "They are the same whatever was computed before: partial periods, blocks since rolled back, other forks and restarts leave no trace.",
     ["histories"], "every chain of snapshot blocks, every history of forks, rollbacks, restarts and queries",
     "tests fill a mock chain once and read the statistics once",
     ["ledger/consensus/consensus_point_array.go", "ledger/consensus/consensus_snapshot.go", "ledger/consensus/chain_rw.go", "ledger/consensus/rollback_proof.go", "ledger/consensus/cdb"],
     [{"name": "cached points with proof hashes", "where": "ledger/consensus/consensus_point_array.go"}, {"name": "point storage", "where": "ledger/consensus/cdb/point.go"}],
     T_CONS, N_CONS, observe=["PeriodStats", "HourStats", "DayStats", "GetSuccessRateByHour"])

T_DEX = "TLA+ specification Dex checked with TLC; TLC behaviours replayed into the DexFund and DexTrade contracts of a node"
N_DEX = ("Exhaustive for the specification with small constants (up to three atomic orders of all types, or six interleaved calls); the code is compared with seeded behaviours of it: "
         "one market, three traders and an operator, two tokens with equal or different decimals. Dividends, mining, staking, listing of tokens and markets and the long-term order expiry are not covered.")
prop("C18", "Orders are matched by price, then time, at the maker's price, and only as their type allows",
     "On the exchange (DexFund, DexTrade) an incoming order trades with the resting orders of the other side in order of best price, and among equal prices of age, each fill at the resting order's price, until it is filled, no longer crosses or 100 fills are reached. "
     "What is left rests for a limit order, is cancelled for a market or immediate-or-cancel order; a fill-or-kill order is executed completely or not at all, a post-only order never takes. "
     "The book holds exactly the open orders, never crosses, and the recorded quantities, amounts, fees and states of every order are those of its fills; only the owner, or an agent the owner has authorised, can cancel an order, and only while it is open.",
     ["histories", "schedules", "inputs"], "every sequence of orders and cancellations of every type, price and size, every interleaving of the contracts' messages",
     "matcher tests run fixed lists of four or five orders against a mock state; the answer depends on the whole book and on what is still on the way",
     ["vm/contracts/dex", "vm/contracts/contracts_dex_trade.go", "vm/contracts/contracts_dex_fund.go"],
     [{"name": "matching", "where": "vm/contracts/dex/matcher.go"}, {"name": "order keys and book order", "where": "vm/contracts/dex/leveldb_book.go"}, {"name": "placing and cancelling", "where": "vm/contracts/contracts_dex_trade.go"}],
     T_DEX, N_DEX, observe=["contract storage of DexTrade (orders, book)", "DexTrade's events: new order, order update, transaction"])

prop("C19", "The exchange neither loses nor creates funds",
     "Whatever sequence of deposits, withdrawals, transfers, orders, cancellations and settlements, in any interleaving of the contracts' messages: the tokens DexFund holds equal the users' available and locked funds plus collected fees plus settlements on the way. "
     "A user's locked funds are exactly what the open orders and orders on the way can still cost, nothing is locked without an order; placing locks the amount and the highest fee, a fill moves the traded amounts and the fees of the users' rates, rounded half up, and an order that ends releases all that is left. "
     "A withdrawal pays at most the available funds, to the user; orders beyond the available funds, below the market's minimum, in a stopped market or by agents without authority are refused and change nothing.",
     ["histories", "schedules", "inputs"], "every history of calls by every user, every interleaving of calls, confirmations and receives, every rounding",
     "fund tests settle hand-computed actions; sums over histories with rounding, partial fills and refunds are not checked",
     ["vm/contracts/dex", "vm/contracts/contracts_dex_fund.go", "vm/contracts/contracts_dex_trade.go"],
     [{"name": "locking and settling", "where": "vm/contracts/dex/fund_settle.go"}, {"name": "fees and refunds of fills", "where": "vm/contracts/dex/matcher.go"}, {"name": "fund calls", "where": "vm/contracts/contracts_dex_fund.go"}],
     T_DEX, N_DEX, observe=["contract storage of DexFund (funds, fee sums)", "balances of DexFund and of users", "sends of both contracts"])

prop("C06", "A node follows the longest fork, whatever order blocks arrive in, and never gives up an irreversible block",
     "Given the snapshot blocks and account blocks of any tree of forks, delivered in any order, repeatedly, by broadcast, by answers to the node's own requests or as sync chunks, a node ends at the tip of a complete branch: "
     "it leaves its branch exactly when another complete branch is at least 3 snapshot blocks longer, also when the fork lies right above genesis or the account chains of the branches conflict, and stays otherwise. "
     "Its ledger is then the one of that branch: the snapshot blocks, the account blocks and what confirms them, and the balances; blocks of other branches are not confirmed. "
     "A snapshot block that two thirds of the producers have built upon within one period is reported as irreversible and is never rolled back in favour of another fork. The node does not crash or stop following.",
     ["schedules", "histories", "inputs"], "every tree of forks with conflicting account chains, every order of delivery, every timing",
     "pool tests use mock blocks and a fixed order; they neither fork a real chain nor check where the node ends",
     ["ledger/pool/pool_fork_checker.go", "ledger/pool/pool.go", "ledger/pool/snapshot_pool.go", "ledger/pool/account_pool.go", "ledger/pool/bc_pool.go", "ledger/pool/pool_batch.go", "ledger/pool/pool_batch_fork.go", "ledger/pool/pool_batch_chunk.go", "ledger/pool/chain_pool.go", "ledger/pool/tree", "ledger/chain/delete.go"],
     [{"name": "fork choice", "where": "ledger/pool/pool_fork_checker.go"}, {"name": "account chains follow the snapshot chain", "where": "ledger/pool/pool.go ForkAccountTo"}, {"name": "sync chunks", "where": "ledger/pool/pool_batch_chunk.go"}],
     "TLA+ specification Fork checked with TLC; TLC behaviours replayed into a real node with the real pool",
     "Exhaustive for the specification with four snapshot blocks; the code is run on seeded trees of 14 snapshot blocks with transfers between three accounts and must come to rest where the specification allows. Real time passes in the pool, so schedules are sampled, not enumerated; consensus accepts every producer.",
     observe=["chain.GetLatestSnapshotBlock, GetSnapshotBlockByHeight, GetConfirmedBalanceList, GetConfirmSnapshotHeaderByAbHash", "pool.GetIrreversibleBlock"])

prop("C22", "A contract's code executes as the instruction set defines, pays for every instruction, and can neither crash the node nor leave half an execution behind",
     "For every contract code and every sequence of calls and off-chain readings of it: each instruction (256-bit arithmetic, signed and unsigned comparison, bit operations, hashing, stack, memory, storage, jumps, call data, code and return data, block and account context, logs, sends, return and revert) has exactly its defined effect, for all operands including zero, the sign bit and values beyond any size; "
     "jumps land only on JUMPDEST instructions, not inside push data. Every instruction costs its defined quota, memory by its size and storage by what the write changes, and the quota recorded in the block is their sum. "
     "A call that stops or returns keeps all of its storage writes, logs and sends; one that reverts, fails (invalid instruction, jump or range, stack or storage limit) or runs out of quota keeps none, and gives back the value sent. After running out of quota a contract accepts no further call until the block has 75 confirmations. "
     "An off-chain reading returns what the code returns and changes nothing. No code or data makes the node crash.",
     ["inputs", "histories"], "every program, every operand, every sequence of calls with what earlier calls stored",
     "VM tests run about a hundred fixed programs; operands at the limits, quota of instruction sequences and memory growth, and storage refunds depend on the program",
     ["vm/instructions.go", "vm/gas_table.go", "vm/memory.go", "vm/memory_table.go", "vm/stack.go", "vm/stack_table.go", "vm/destination.go", "vm/jump_table.go", "vm/interpreter.go", "vm/contract.go", "vm/vm.go", "vm/util", "common/helper"],
     [{"name": "instructions", "where": "vm/instructions.go"}, {"name": "quota of instructions", "where": "vm/gas_table.go"}, {"name": "jump analysis", "where": "vm/destination.go"}, {"name": "call execution and outcome", "where": "vm/vm.go receiveCall"}],
     "TLA+ specification VM (with 256-bit words) checked with TLC; TLC behaviours replayed as contract deployments and calls on a node",
     "Exhaustive for the specification with all programs of up to three (four) instructions of a small set; the code is compared with seeded programs of about 25 pieces over all instructions except SEED and RANDOM, and calls to user addresses only. Contracts with seed confirmations and DELEGATECALL (not in the current instruction set) are not covered.",
     observe=["account block quota, data, send list", "chain.GetVmLogList, GetStorageIterator, GetBalance", "vm.OffChainReader"])

prop("C07", "The ledger's key-value stores show every write at once, undo exactly what is rolled back, and survive a crash at a flush boundary",
     "For every sequence of account-block batches, snapshots that confirm any of them, direct writes, roll backs of an account block or to an earlier snapshot, flushes in stages (prepare, cancel, redo log, commit, clean up) with writes between the stages, and crashes: "
     "every read (Get, Has, iteration over a range or prefix in both directions, with any seek) gives the effect of all writes that were not rolled back, in the order of writing, deletions included, whether they are in the database, in the flush under way or only in memory; a rolled back write is nowhere seen and never reaches the database; "
     "a flush writes confirmed changes only and changes nothing a reader sees; after a crash the store holds exactly what the last flush with a complete redo log contained. "
     "A block under execution sees its own writes over the store, in reads and in iteration, keeps the original values readable, and leaves the store untouched until it is inserted; resetting it forgets its writes.",
     ["inputs", "histories", "crash points"], "every interleaving of writes, confirmations, roll backs and flush stages, and every place of a crash",
     "the tests write a handful of keys and read them back; they have no roll backs between the stages of a flush, and no iteration over keys that are partly in memory, partly on disk and partly deleted",
     ["ledger/chain/db", "common/db", "vm_db"],
     [{"name": "store", "where": "ledger/chain/db/store.go"}, {"name": "flush stages", "where": "ledger/chain/db/flush.go"}, {"name": "roll back", "where": "ledger/chain/db/rollback.go, unconfirmed_batch.go"}, {"name": "memory table", "where": "common/db/memdb.go, common/db/xleveldb/memdb"}, {"name": "merged iterator", "where": "common/db/merged_iterator.go"}, {"name": "block overlay", "where": "vm_db/unsaved.go, vm_db/storage.go"}],
     "TLA+ specification Store checked with TLC; TLC behaviours replayed on the store with a LevelDB in a scratch directory",
     "Exhaustive for the specification with two accounts, three keys and six operations; the code is compared on seeded behaviours of 80 operations over eight keys, after every operation. Operations are called one at a time; readers running in parallel with writers are not scheduled.",
     observe=["Store.Get, Has, NewIterator", "vm_db.VmDb GetValue, GetOriginalValue, NewStorageIterator, GetUnsavedStorage"])

prop("C08", "Blocks written to the block files are read back unchanged from their location, also after roll back, flush, crash and restart",
     "For every sequence of snapshot chunks written to the block files, whatever their sizes and however many files they fill, roll backs to the end of any earlier chunk, flushes in stages (prepare, cancel, redo log, commit, clean up) with writes and roll backs between the stages, crashes at any stage or with the files torn, and restarts: "
     "every block that was not rolled back is read from the location given when it was written, equal in every byte, alone, as the unit after another and as part of every range of chunks; a roll back gives the chunks it removes and keeps all before; "
     "after a crash the files hold exactly the chunks of the last flush whose redo log was complete, and writing goes on from there. None of these operations makes the node crash.",
     ["inputs", "histories", "crash points"], "every block size relative to the file size, every interleaving of writing, roll back and flush, and every place of a crash",
     "files hold 10 MB, so tests never leave the first; roll backs over several files, flushes that overlap them and torn files happen only on a node that has run for a while",
     ["ledger/chain/block", "ledger/chain/file_manager"],
     [{"name": "writing", "where": "ledger/chain/block/block_db.go, ledger/chain/file_manager/file_manager.go"}, {"name": "reading", "where": "ledger/chain/block/account_block.go, snapshot_block.go, block_parser.go"}, {"name": "flush stages", "where": "ledger/chain/block/flush.go, ledger/chain/file_manager/fd.go"}, {"name": "cache of file descriptors", "where": "ledger/chain/file_manager/fd_manager.go"}],
     "TLA+ specification Blocks checked with TLC; TLC behaviours replayed on block files of 2 to 5 kB in a scratch directory",
     "Exhaustive for the specification with five chunks; the code is compared on seeded behaviours of 100-140 operations, all chunks read back after every operation. Operations are called one at a time.",
     observe=["BlockDB.Write, Read, ReadRaw, ReadUnit, ReadRange, GetNextLocation, PrepareRollback, Rollback, Prepare, RedoLog, Commit, AfterCommit, PatchRedoLog"])

prop("C23", "The wallet gives out keys only for the right passphrase, always the same ones, and forgets them when locked",
     "For every history of creating or recovering stores, adding and removing them by absolute or relative name, unlocking with right and wrong passphrases, locking, searching with a passphrase, files that appear, are damaged or erased behind the wallet's back, refreshing and restarting: "
     "the wallet knows exactly the stores in its directory at the start plus those added, recovered or created and not removed since; a store is unlocked exactly if it was opened with the passphrase of its file and not locked, removed, recovered anew or restarted since; a wrong passphrase or a damaged file is refused and changes nothing. "
     "Keys, addresses and signatures come out of a known store only while it is unlocked or with its passphrase, for the searched number of addresses, and are always those that the store's words derive (m/44'/666666'/i'); the words come back by the passphrase. An address is found in whichever store has it, whatever state the other stores are in. "
     "Every registered listener is told of each unlocking and locking of a store, and no one else.",
     ["histories", "inputs"], "every history of operations on several stores, every passphrase, every damage to a file",
     "tests unlock one store with one passphrase; they have no second store, no damaged file, no wrong passphrase on an open store and no second listener",
     ["wallet"],
     [{"name": "manager of stores", "where": "wallet/manager.go"}, {"name": "store", "where": "wallet/entropystore/manager.go"}, {"name": "encrypted file", "where": "wallet/entropystore/crypto_store.go"}, {"name": "key derivation", "where": "wallet/hd-bip/derivation/main.go"}],
     "TLA+ specification Wallet checked with TLC; TLC behaviours replayed on the wallet manager in a scratch directory",
     "Exhaustive for the specification with one seed (two in the thorough tier), two files and two passphrases per seed; the code is compared on seeded behaviours over three seeds and six files. Calls are made one at a time.",
     observe=["wallet.Manager", "entropystore.Manager", "lock events"])

prop("C24", "A ledger segment served to a syncing node holds exactly its blocks, and a downloaded one is kept until it is used",
     "For every ledger, also after roll backs, flushes and restarts, and every range of heights within it: the segment a node serves has the hashes of the range's ends, announces its true size, and its bytes hold exactly the snapshot blocks of the range in order, each with exactly the account blocks it confirms, in the order of each account; ranges outside of the ledger are refused. "
     "The same holds for the sub-ledgers read by height, and for the ranges a downloaded chunk announces per account. "
     "The cache of downloaded segments: a segment that overlaps one being written or kept is refused; a finished one is listed in order of height and read back block by block as written, with its size and verification mark, until it is deleted, also after a restart; unfinished or vanished ones are never given out and are gone after a restart.",
     ["inputs", "histories"], "every ledger and range of heights, every history of downloads, deletions and restarts",
     "the tests of the sync cache do not restart it, and segments are read from one fixed chain without roll backs",
     ["ledger/chain/sync_ledger.go", "ledger/chain/sync_cache", "ledger/chain/snapshot_block.go", "net/interface.go"],
     [{"name": "segment reader", "where": "ledger/chain/sync_ledger.go"}, {"name": "segment cache", "where": "ledger/chain/sync_cache/sync_cache.go, reader.go, writer.go"}, {"name": "sub-ledgers", "where": "ledger/chain/snapshot_block.go GetSubLedger"}, {"name": "chunk ranges", "where": "net/interface.go NewChunk"}],
     "TLA+ specifications Sync and Ledger checked with TLC; TLC behaviours replayed on the cache and on a node",
     "Exhaustive for the cache specification with four heights and two forks, and the Ledger model; the code is compared on seeded behaviours. The download protocol itself (peers, tasks, speeds) is not covered.",
     observe=["chain.GetLedgerReaderByHeight, GetSubLedger, GetSubLedgerAfterHeight", "SyncCache", "net.NewChunk"])

prop("C25", "A subscriber is told of every change of the ledger, once and in order",
     "For every history of insertions, snapshots and roll backs, and however slowly subscribers read: whoever applies the messages of a filter one by one, starting from the ledger at the time of subscription, has the ledger (its account blocks, the blocks of one account, the snapshot blocks, the unreceived sends of an account, the logs of the accounts, heights and topics asked for) once all messages are read. "
     "No message is missing, repeated or out of order: a block is announced after its predecessor and after the send it receives, a removal only for what was announced and not yet removed, a send only when it becomes unreceived, received or vanishes; heights, addresses and topics are those of the block. Polling a filter gives exactly what happened since it was polled last; one that was given up answers no more, and the others do not notice.",
     ["histories", "schedules"], "every history of the ledger, every interleaving of changes, event loop and subscribers",
     "no test subscribes to a chain that rolls back; the interleavings of the event loop's channels are up to the scheduler",
     ["rpcapi/api/filters", "ledger/chain/event_manager.go", "ledger/chain/delete.go"],
     [{"name": "chain listener", "where": "rpcapi/api/filters/chain_subscribe.go"}, {"name": "event loop and messages", "where": "rpcapi/api/filters/event_system.go"}, {"name": "polled filters", "where": "rpcapi/api/filters/subscribe.go"}],
     "TLA+ specifications Events and Ledger checked with TLC; TLC behaviours replayed on a node with slow subscribers and polled filters",
     "Exhaustive for Events with two accounts and five changes; the code is compared on seeded behaviours, with the events of up to six operations waiting. Filters are used directly, not through the JSON-RPC server; the expiry of unused filters (5 minutes) is not covered.",
     observe=["filters.SubscribeApi (polled filters)", "filters.EventSystem subscriptions"])

prop("C26", "The ledger's RPC answers describe the ledger",
     "For every ledger, also after roll backs and restarts, the ledger_* queries agree with it: account blocks by hash, height, page, range and from a hash, newest first, with every field, sender, receiver, token and amount (a receive shows those of the send it receives), the block that received a send, the number of confirmations and the confirming snapshot; the hash of a user's block can be recomputed from the answer. "
     "Also: number of blocks and balances of an account; its unreceived sends, in pages without gap or repetition, and their totals; snapshot blocks by hash, height, time and in ranges, with their content and producer; the account blocks of each snapshot; balances as of a snapshot; unconfirmed blocks. "
     "The log query gives every log of the accounts, heights and topics asked for, in ascending height per account, with its block and account, once over all pages, and no page exceeds its size.",
     ["inputs", "histories"], "every ledger, every query with its range or page",
     "the tests of the RPC layer need a prepared node and query hardly anything; answers depend on the history of the ledger",
     ["rpcapi/api/ledger.go", "rpcapi/api/ledger_v2.go", "rpcapi/api/ledger_model.go"],
     [{"name": "queries", "where": "rpcapi/api/ledger_v2.go, ledger.go"}, {"name": "blocks in answers", "where": "rpcapi/api/ledger_model.go ledgerToRpcBlock, addExtraInfo, RpcToLedgerBlock"}, {"name": "log query", "where": "rpcapi/api/ledger_v2.go GetLogs, FilterLog"}],
     "TLA+ specification Ledger checked with TLC; TLC behaviours replayed on a node whose RPC interface is queried after every step",
     "Exhaustive for the Ledger model; the code is compared on seeded behaviours. The interface's methods are called directly, not through the JSON-RPC server. Log queries that start above the account's height are not covered.",
     observe=["api.LedgerApi"])

prop("C27", "The contract RPC answers describe the contracts' state",
     "For every history of calls, roll backs and restarts, the contract_* queries agree with the state of the contracts. Stakes: an address's list in pages ordered by expiration, without gap or repetition, with count and total; the list of all stakes as of a snapshot in pages; a delegated stake; with amount, beneficiary, owner, delegation, identifier, expiration height and the time it projects to from the latest snapshot (one second a snapshot); the stake behind an account's quota. "
     "Block producers: by name (an unknown name is an error) and by staking or reward address, each once, with addresses, stake, expiration and revocation; the producer an address votes for, whether it is active, and the weight. Tokens: by identifier, by owner, and all of them in pages ordered by name, without gap or repetition, with every field. "
     "Contracts: code and parameters, storage (also under a prefix), the address a creation gives; an off-chain call reads the contract's storage and changes nothing.",
     ["inputs", "histories"], "every history, every query with its page",
     "there are no tests of these queries; their answers depend on the history of the contracts",
     ["rpcapi/api/contract_v2.go", "rpcapi/api/quota.go", "rpcapi/api/register.go", "rpcapi/api/mintage.go", "vm/vm.go"],
     [{"name": "queries", "where": "rpcapi/api/contract_v2.go"}, {"name": "order of pages", "where": "rpcapi/api/quota.go byExpirationHeight, contract_v2.go byName, utils.go getRange"}, {"name": "off-chain call", "where": "vm/vm.go OffChainReader"}],
     "TLA+ specifications Builtin and Ledger checked with TLC; TLC behaviours replayed on a node whose RPC interface is queried after every step",
     "Exhaustive for the bounded models; the code is compared on seeded behaviours. The interface's methods are called directly, not through the JSON-RPC server. Rewards and vote counts by cycle (which need a running consensus) are not covered.",
     observe=["api.ContractApi"])

prop("C28", "A query beside a change of the ledger sees it before or after",
     "While account blocks and snapshot blocks are inserted, and while the stores are flushed beside them, every query of a single item - an account's latest block and height, a block by height or hash, a balance, the receive of a send, the confirming snapshot and the number of confirmations, a snapshot block by height or hash, the latest snapshot - gives the answer of the ledger before or after the operation under way, never another one and never an error. "
     "Queries of any kind beside insertions, snapshots, flushes and roll backs do not crash the node, do not access its data unsynchronised, and leave the ledger and its balances as they would be without them.",
     ["schedules", "histories"], "every interleaving of queries with operations and flushes",
     "tests query between the operations; which interleavings occur is up to the scheduler",
     ["ledger/chain", "ledger/chain/cache", "ledger/chain/state", "ledger/chain/index", "ledger/chain/db", "ledger/chain/file_manager", "common/db"],
     [{"name": "insertion", "where": "ledger/chain/insert.go"}, {"name": "stores and flush", "where": "ledger/chain/db/store.go, flush.go; ledger/chain/file_manager"}, {"name": "caches", "where": "ledger/chain/cache, ledger/chain/state/cache.go"}],
     "TLA+ specification Ledger checked with TLC; TLC behaviours replayed on a node that is queried by other goroutines during every operation, also under the race detector",
     "The interleavings are those the scheduler gives while two goroutines query without pause. Answers during a roll back, of which intermediate states are visible by design, and of queries of several items are not judged, only their synchronisation. Diagnostic counters (GetStatus) are not covered.",
     observe=["chain.Chain queries from concurrent goroutines"])

prop("C29", "An election's input does not depend on the cache it is read from",
     "The votes, the voters' VITE balances and the registrations as of a snapshot, which an election is computed from, are the same whether the node reads them from its ledger or from the cache of the last rounds that it uses while it catches up (SetCacheLevelForConsensus): "
     "they are the votes, balances and registrations that the contract and the accounts had when that snapshot was taken, for every snapshot, after every history of votes, withdrawn votes, registrations, payments, snapshots that share, follow or skip rounds, roll backs of any depth and restarts.",
     ["histories", "crash points"], "every history across rounds, with roll backs and restarts anywhere",
     "a wrong answer needs a certain pattern of rounds, roll backs and restarts, and only shows in an election computed from the cache",
     ["ledger/chain/state"],
     [{"name": "cache of rounds", "where": "ledger/chain/state/round_cache.go"}, {"name": "reading it", "where": "ledger/chain/state/storage_database.go NewStorageIterator; state_db.go GetSnapshotBalanceList"}, {"name": "use while catching up", "where": "ledger/pool/pool_batch_chunk.go"}],
     "TLA+ specifications Rounds (the cache, exhaustively) and Builtin (votes, registrations, balances) checked with TLC; TLC behaviours replayed on a node that is asked with the cache on and off as of every snapshot",
     "Rounds of 75 seconds, up to 14 snapshots back, three voters and three registrations. The cache is not read while it changes.",
     observe=["chain.Chain.GetVoteList, GetConfirmedBalanceList, GetRegisterList, GetAllRegisterList, GetConsensusGroupList, SetCacheLevelForConsensus"])
