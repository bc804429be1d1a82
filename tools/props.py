#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the source of both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="model_checking", observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, level=level, observe=observe))


T_LEDGER = "TLA+ specification Ledger checked with TLC; TLC behaviours replayed into a real node (chain, VM, verifier, on-road pool)"
N_LEDGER = ("Exhaustive for the specification within small constants; the code is compared with seeded behaviours of it, state by state. "
            "One process, no power loss; contract programs are those of a small synthetic contract.")

prop("C01", "Tokens are conserved and every send is received at most once",
     "After any history of transfers, contract calls, contract creations, rollbacks and restarts, the balance of every account is exactly what its chain of blocks implies: sends debit, receives credit the amount sent. "
     "For every token the balances, the amounts sent but not yet received and the burnt creation fees add up to the initial supply, and no balance is ever negative. "
     "A send is credited at most once, only to its addressee, and only while the send itself is in the ledger.",
     ["histories", "inputs", "schedules"], "every sequence of account operations, snapshots, rollbacks and restarts",
     "unit tests insert a few fixed transfers; conservation under interleaved contract calls, rollbacks and restarts is never checked",
     ["vm/vm.go", "ledger/chain/insert.go", "ledger/chain/state/write.go", "ledger/chain/state/delete.go", "ledger/chain/onroad.go", "ledger/verifier/account_verifier.go", "vm_db/balance.go"],
     [{"name": "vm send/receive balance update", "where": "vm/vm.go"}, {"name": "received index of a send", "where": "ledger/chain/index/insert.go"}],
     T_LEDGER, N_LEDGER, observe=["GetBalance", "GetBalanceMap", "IsReceived", "GetReceiveAbBySendAb", "GetConfirmedBalanceList"])

prop("C02", "All views of the stored ledger agree with one another",
     "Every query of the ledger - block by hash, by height, latest block, ranges, receive of a send, confirming snapshot and number of confirmations, snapshot by hash, height or time, sub-ledger, account list, per-token block list, contract list - describes one and the same ledger: the blocks inserted and not rolled back, in their order. "
     "What is not in that ledger is found by no query.",
     ["histories", "inputs"], "every history of insertions, snapshots, rollbacks, flushes and restarts, and every query",
     "tests query each index right after a fixed insertion sequence; stale entries left by rollback or by an eviction between memory and disk need histories",
     ["ledger/chain/account_block.go", "ledger/chain/snapshot_block.go", "ledger/chain/index", "ledger/chain/cache", "ledger/chain/block", "ledger/chain/plugins", "ledger/chain/sync_ledger.go", "ledger/chain/unconfirmed.go"],
     [{"name": "index database", "where": "ledger/chain/index"}, {"name": "block cache", "where": "ledger/chain/cache"}],
     T_LEDGER, N_LEDGER)

prop("C03", "Rolling back restores exactly the earlier ledger",
     "Deleting an unconfirmed account block removes it together with exactly the blocks that depend on it; deleting snapshots from some height on removes those snapshots and every block above the one before, and makes the blocks the first deleted snapshot had confirmed unconfirmed again. "
     "Afterwards balances, contract storage, code, contract lists, on-road sends and all queries are as if the removed blocks had never been inserted, and the ledger can be extended again.",
     ["histories", "schedules"], "every history and every rollback point in it",
     "rollback tests delete from one generated chain and compare a few queries",
     ["ledger/chain/delete.go", "ledger/chain/state/delete.go", "ledger/chain/index/delete.go", "ledger/chain/cache", "ledger/chain/plugins", "ledger/chain/unconfirmed.go"],
     [{"name": "redo log of state changes", "where": "ledger/chain/state/redo.go"}, {"name": "dependency closure of deletions", "where": "ledger/chain/delete.go"}],
     T_LEDGER, N_LEDGER)

prop("C04", "A crash leaves the ledger at its last completed flush",
     "Whenever the process is killed - between operations, or at any point inside the flush of the ledger's stores, including a partly written redo log or during the deletion of snapshots - the reopened node has either the complete state of the last finished flush or that of the flush under way, never a mixture. "
     "All queries and the state then agree with that ledger, and it can be extended.",
     ["crash_points", "histories"], "every history, every store and every step of the flush protocol at which the process can die",
     "flusher tests use mock stores and one crash each; no test restarts a node from a half-finished flush",
     ["ledger/chain/flusher", "ledger/chain/db", "ledger/chain/block/flush.go", "ledger/chain/chain.go", "ledger/chain/file_manager"],
     [{"name": "two-phase flush with redo log", "where": "ledger/chain/flusher/flusher.go"}],
     "TLA+ specification Ledger checked with TLC; replayed with the data directory captured at enumerated points of the flush",
     N_LEDGER + " Writes that reached the file system are kept (process crash, not power loss).")

prop("C05", "The state at a snapshot never changes",
     "Balances, contract storage and contract existence queried at an existing snapshot are those of the ledger that snapshot confirmed, no matter what is inserted, snapshotted, rolled back above it, flushed or restarted later.",
     ["histories"], "every later history and every snapshot still in the ledger",
     "tests read history right after writing it",
     ["ledger/chain/state", "ledger/chain/state.go", "vm_db"],
     [{"name": "history keys per snapshot height", "where": "ledger/chain/state/write.go"}, {"name": "snapshot value and round caches", "where": "ledger/chain/state/cache.go"}],
     T_LEDGER, N_LEDGER)

prop("C13", "A failed contract call changes nothing and returns the money",
     "A contract call that reverts, runs out of its allowance or otherwise fails leaves the contract's storage, balance, log and sends as before it and sends the whole amount back to the caller; a failed creation leaves no contract. "
     "A successful call applies exactly the storage writes, transfers and logs its program made.",
     ["programs", "histories"], "every sequence of calls in which some succeed and some fail at any point, including nested calls through sends",
     "interpreter tests run single calls on a mock database",
     ["vm/vm.go", "vm/interpreter.go", "vm/instructions.go", "vm_db", "vm/contract.go"],
     [{"name": "reset of the pending state on failure", "where": "vm/vm.go"}],
     T_LEDGER, N_LEDGER)

prop("C20", "Calls on the road are complete, in order and nothing else",
     "At every moment the sends listed as on the road for an account are exactly those in the ledger that it has not received, with the right count and amount per token. "
     "For a contract, each caller's next call is its oldest unreceived one, also across rollbacks and restarts, and the contract may only receive that one.",
     ["histories", "schedules"], "every history of sends, receives, snapshots, rollbacks and restarts, and every caller and contract",
     "pool tests push a fixed list into an empty pool",
     ["ledger/onroad", "ledger/chain/onroad.go", "ledger/chain/plugins/onroad_info.go", "ledger/chain/index"],
     [{"name": "caller queues", "where": "ledger/onroad/pool"}, {"name": "on-road keys", "where": "ledger/chain/index/onroad.go"}],
     T_LEDGER, N_LEDGER)

prop("C21", "Only valid account blocks are accepted",
     "A block is accepted exactly when it continues its account's chain, is signed by the account's owner (or the contract's current producer), its hash covers its content, the account can pay, a receive names an unreceived send to it that is confirmed often enough and is the caller's oldest, and its declared results equal re-execution. "
     "Every block the node generates itself is accepted by the verifier, and no altered copy of it is.",
     ["inputs", "histories"], "every reachable ledger, every block generated on it and every single-field alteration of that block",
     "verifier tests check a handful of hand-built blocks against a mock chain",
     ["ledger/verifier", "ledger/generator", "vm/vm.go", "interfaces/core/account_block.go"],
     [{"name": "account verifier", "where": "ledger/verifier/account_verifier.go"}],
     T_LEDGER, N_LEDGER)

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        a = {"files": p["files"], "mechanism": p["mech"]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
na = {n[0] for n in NA}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
                for p in sorted(PROPS, key=lambda p: p["id"]) if p["id"] not in na],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA],
     "notes": "All checks: check.py ID (see DESIGN.md); specifications in specs/, harnesses in harness/ (built into /repo's module through a go build overlay, /repo itself is not written)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
