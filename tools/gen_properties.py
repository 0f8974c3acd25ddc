#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- storage
p("S01", "Key-value storage transactions are atomic",
  "A read-write transaction of the key-value storage takes effect either completely or not at all: after a successful commit every put and delete of it, on every map, is visible to every later transaction, and after an abort, a drop, or a failed commit none is. This holds whatever mixture of puts, overwrites, deletes and maps the transaction contains and whatever other transactions ran before or run concurrently.",
  ["histories", "schedules", "fault_sequences"],
  "every history of transactions over any set of maps, every interleaving of reader and writer threads, with aborts, drops and panics at any point of a transaction",
  "The backend test-suite commits a handful of fixed or lightly randomised transactions from one or two threads under whatever schedule the OS gives it; it cannot cover every mixture of operations, maps, outcome and interleaving.",
  ["storage/core/src/backend.rs", "storage/core/src/adaptor/mod.rs", "storage/core/src/adaptor/locking.rs", "storage/inmemory/src/lib.rs", "storage/sqlite/src/lib.rs"],
  [("write transaction keeps a delta per map and applies it on commit while holding the write lock", "storage/core/src/adaptor/locking.rs"),
   ("BEGIN/COMMIT/ROLLBACK, rollback on drop", "storage/sqlite/src/lib.rs")],
  ["storage_core::backend::{Backend, ReadOps, WriteOps, TxRw}"])
p("S02", "Storage transactions are isolated from one another",
  "A read-only storage transaction sees one and the same committed state from its first to its last operation, never anything of a transaction that was not committed when it began or that was rolled back. Read-write transactions are serialised: each one sees all effects of every transaction committed before it and no update is lost, and no combination of concurrent readers and writers deadlocks.",
  ["schedules", "histories"],
  "every interleaving of concurrent reader and writer threads over the storage backends that are shared between threads",
  "The concurrency tests of the backends run a few two-thread scenarios under the OS scheduler, with explicit sleeps and barriers; an interleaving that breaks the snapshot or loses an update has to happen by luck.",
  ["storage/core/src/adaptor/locking.rs", "storage/inmemory/src/lib.rs", "storage/sqlite/src/lib.rs"],
  [("readers hold a shared guard and writers an exclusive guard for the life of the transaction", "storage/core/src/adaptor/locking.rs"),
   ("one connection behind a lock, held for the transaction", "storage/sqlite/src/lib.rs")],
  ["storage_core::backend::{Backend, ReadOps}"])
p("S03", "Reads and ordered scans match a sorted map, own writes included",
  "At every point of a storage transaction, point lookups, prefix scans and scans from a key return exactly what a sorted map holding the committed data with this transaction's own earlier puts and deletes applied would return: no key missing, duplicated, stale, out of order, or taken from another map. The maps keep this across closing and reopening the storage.",
  ["histories", "inputs"],
  "every sequence of puts, deletes, overwrites, commits, aborts and scans, with arbitrary keys (empty, prefixes of one another, 0xff-terminated) and scan bounds",
  "Scans inside a transaction with uncommitted changes are covered by a few examples; the merge of pending changes with committed data has many boundary cases (deleted last key, overwritten key at the bound, prefix ending in 0xff).",
  ["storage/core/src/adaptor/locking.rs", "storage/core/src/util.rs", "storage/inmemory/src/lib.rs", "storage/sqlite/src/lib.rs", "storage/sqlite/src/queries.rs"],
  [("merge iterator over the committed map and the pending changes", "storage/core/src/adaptor/locking.rs"),
   ("ordered prefix/greater-or-equal SQL queries per table", "storage/sqlite/src/queries.rs")],
  ["storage_core::backend::ReadOps"])
p("S04", "Committed SQLite storage transactions survive any crash",
  "With default options, when the process or the machine dies at any moment, reopening an SQLite-backed storage succeeds and yields exactly the transactions whose commit had returned successfully, plus possibly the one commit that was in progress, and nothing of any other transaction. This holds for crashes while the storage is being created or opened too.",
  ["crash_points", "histories", "fault_sequences"],
  "every crash point (each disk write, sync, truncate and delete), with unsynced data lost, kept or torn, over every transaction history and repeated crashes during recovery",
  "No test crashes the storage; the tests close it cleanly and the default file system never loses an unsynced write.",
  ["storage/sqlite/src/lib.rs", "storage/sqlite/src/queries.rs"],
  [("one SQL transaction per storage transaction with SQLite's rollback journal and synchronous mode", "storage/sqlite/src/lib.rs")],
  ["storage_sqlite::Sqlite via storage_core::backend traits", "the database file"],
  None)
p("S05", "Storage failures are reported and leave the storage usable",
  "When the disk fails a read, write or sync or runs out of space, the affected storage operation or commit returns an error rather than success, wrong data or a hang, and a transaction whose commit failed has either fully happened or not happened at all. Once the fault stops, later transactions (after reopening, if need be) work and all previously committed data is intact.",
  ["fault_sequences", "histories"],
  "every sequence of I/O errors, short reads and writes, failed syncs and disk-full conditions at any disk operation of any transaction history",
  "The failing backend used in tests injects errors above the storage; the real storage code is never run against a disk that fails.",
  ["storage/sqlite/src/lib.rs", "storage/sqlite/src/error.rs", "storage/core/src/error.rs", "storage/failing/src/lib.rs"],
  [("errors mapped to recoverable or fatal storage errors", "storage/sqlite/src/error.rs"),
   ("rollback on drop of an unfinished transaction", "storage/sqlite/src/lib.rs")],
  ["storage_core::backend traits and storage_core::Error"])
p("S06", "Several maps and typed values round-trip through the storage schema",
  "What is stored through the typed storage interface is read back unchanged under the same key of the same map and of no other map, through every wrapper layer, and iteration yields typed entries in key order; a failed access is reported as an error, never as a missing value or an empty map. Transactions used through the typed interface keep the same all-or-nothing behaviour under failures of the layer below.",
  ["histories", "fault_sequences"],
  "every sequence of typed operations and transactions, with storage failures injected under the typed interface at any operation",
  "Typed storage tests use fixed schemas with a few operations and never inject a failure in the middle of a transaction.",
  ["storage/src/database/mod.rs", "storage/src/database/internal.rs", "storage/src/schema.rs", "storage/failing/src/lib.rs"],
  [("schema-indexed maps encode and decode keys and values", "storage/src/database/mod.rs")],
  ["storage::{Storage, MakeMapRef, TransactionRw}"])

# -------------------------------------------------------------- subsystem
p("U01", "Every subsystem call runs once, in order, and answers its caller",
  "Mutating calls submitted to one subsystem by the same caller are executed in the order of submission, read-only calls never before a mutating call the same caller submitted earlier, each call exactly once, and each caller receives the result of its own call. A call whose subsystem has stopped or stops before executing it is answered with an error, never with a wrong result and never by waiting forever.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of caller tasks, blocking callers and subsystem tasks, with callers cancelled, subsystems exiting, panicking or shutting down at any point",
  "The tests make a few calls in one schedule; ordering, cancellation and shutdown races need particular interleavings.",
  ["subsystem/src/calls/mod.rs", "subsystem/src/calls/blocking.rs", "subsystem/src/calls/handle.rs", "subsystem/src/task.rs", "subsystem/src/wrappers.rs"],
  [("unbounded action queue per subsystem drained in order", "subsystem/src/task.rs"), ("result channel per call", "subsystem/src/calls/mod.rs")],
  ["subsystem::Handle::{call, call_mut}", "subsystem::blocking::BlockingHandle"])
p("U02", "Mutating subsystem calls are exclusive, read-only calls see settled state",
  "While a mutating call on a subsystem runs, no other call on that subsystem runs; read-only calls may overlap each other but every read-only call observes all mutating calls submitted before it by the same caller and none that is only partly done.",
  ["schedules"],
  "every interleaving of read-only and mutating calls from any number of callers with arbitrarily slow call bodies",
  "The tests check mutual exclusion with a few fixed call patterns; the read-only worker pool runs concurrently with the queue and the dangerous interleavings are not forced.",
  ["subsystem/src/task.rs", "subsystem/src/calls/blocking.rs"],
  [("read-write lock around the subsystem; mutating calls awaited inline, read-only calls in a worker set", "subsystem/src/task.rs")],
  ["subsystem::Handle::{call, call_mut, call_async, call_async_mut}"])
p("U03", "Shutdown stops subsystems once each, in reverse order of start",
  "When shutdown is requested, subsystems stop in the reverse order of their registration, one at a time: each gets its shutdown hook run exactly once, after its running read-only calls have finished, and a subsystem can still successfully call every subsystem registered before it until its own shutdown hook has completed. Calls not started by then are not executed later.",
  ["schedules", "fault_sequences", "configurations"],
  "every set of subsystems, every moment and every number of shutdown requests, every interleaving with running and queued calls, slow and stuck shutdown hooks included",
  "Shutdown tests use two or three subsystems that are idle at shutdown; ordering under load and with repeated or early requests is not covered.",
  ["subsystem/src/manager/manager_impl.rs", "subsystem/src/manager/shutdown_signal.rs", "subsystem/src/task.rs"],
  [("reverse-order shutdown loop with one shutdown channel per subsystem", "subsystem/src/manager/manager_impl.rs"), ("shutdown branch has priority over queued actions", "subsystem/src/task.rs")],
  ["subsystem::Manager", "subsystem::Subsystem::shutdown"])
p("U04", "Failure of any subsystem brings the whole system down in bounded time",
  "If any subsystem exits, panics or fails to initialise, or a shutdown is triggered from anywhere, the whole system shuts down and its main entry point returns within the sum of the configured per-subsystem shutdown timeouts, even when some subsystem is stuck. No shutdown request made before or during startup or shutdown is lost.",
  ["schedules", "fault_sequences", "configurations"],
  "every failing subsystem, every failure point (initialisation, call, background work, shutdown hook), every interleaving and every timeout configuration",
  "A few scenarios with one failing subsystem are tested; stuck subsystems combined with other failures and shutdown races are not.",
  ["subsystem/src/manager/manager_impl.rs", "subsystem/src/manager/mod.rs", "subsystem/src/manager/shutdown_signal.rs", "subsystem/src/task.rs"],
  [("each task triggers shutdown when it ends", "subsystem/src/task.rs"), ("per-subsystem timeout while shutting down", "subsystem/src/manager/manager_impl.rs")],
  ["subsystem::Manager::main", "subsystem::ShutdownTrigger", "subsystem::ManagerJoinHandle"])

# -------------------------------------------------------- events and utils
p("E01", "In-process event bus delivers every event once, in order",
  "Every handler subscribed to the in-process event bus is called exactly once for each event broadcast after its subscription, in the order of broadcast, whatever the speed of the handlers and the number of subscribers. Waiting for all events returns only after every handler has finished with every event broadcast before the wait, and always returns.",
  ["schedules", "histories"],
  "every interleaving of the broadcasting thread, subscribing thread and handler thread, arbitrarily slow handlers",
  "Tests broadcast a few events under one schedule with sleeping; whether waiting can return early or an event can be reordered depends on the interleaving with the worker thread.",
  ["utils/src/eventhandler.rs", "utils/src/blockuntilzero.rs", "utils/src/counttracker.rs"],
  [("one worker thread per bus receives a task per event and subscriber", "utils/src/eventhandler.rs"), ("pending-task counter", "utils/src/counttracker.rs")],
  ["utils::eventhandler::EventsController"])
p("E02", "Broadcast channel gives each subscriber a gapless ordered stream",
  "Each live subscriber of the broadcast channel receives every value broadcast after it subscribed, exactly once and in order, no matter how slow it is and how other subscribers come and go, and its stream ends only after the broadcaster is gone and all values were received. Dropped subscribers never affect the others, and the reported number of subscribers is never lower than the number of live ones.",
  ["schedules", "histories"],
  "every interleaving of broadcasts, subscriptions, receives, cancelled receives and drops from several threads and tasks",
  "Tests exercise a few sequential histories from one task; pruning of dropped subscribers and concurrent subscribers are hit only by chance.",
  ["utils/networking/src/broadcaster.rs"],
  [("one unbounded queue per subscriber, closed ones pruned on broadcast and subscribe", "utils/networking/src/broadcaster.rs")],
  ["utils_networking::broadcaster::{Broadcaster, Receiver}"])
p("E03", "Waiting for outstanding work never returns early and never hangs",
  "A wait for outstanding activities to finish returns only at a moment when no tracked activity was outstanding, and always returns once the last one has finished, for any number of threads that begin, clone, finish and wait concurrently. Activity counts never go wrong when activities overlap or unwind.",
  ["schedules"],
  "every interleaving of threads beginning, ending (also by panic) and waiting for tracked activities, under sequentially consistent interleavings",
  "The counters are tested with a few threads on real hardware, where losing wake-up interleavings are rare; the loom tests are not part of the ordinary test run.",
  ["utils/src/blockuntilzero.rs", "utils/src/counttracker.rs", "utils/src/atomics", "utils/src/set_flag.rs", "utils/src/once_destructor.rs"],
  [("counter with increments before the activity and decrements on drop", "utils/src/counttracker.rs"), ("blocking wait in a loop and on drop", "utils/src/blockuntilzero.rs")],
  ["utils::blockuntilzero::BlockUntilZero", "utils::counttracker::CountTracker"])

# --------------------------------------------------------------------- rpc
p("R01", "RPC with credentials serves only correctly authenticated requests",
  "When RPC authentication is enabled no request, HTTP or WebSocket, executes any RPC method or opens any subscription unless it carries the exact configured user name and password, and such a request is always served; every other request, on a fresh or a reused connection and in any order with good ones, is refused without being executed.",
  ["inputs", "histories", "schedules"],
  "every interleaving of requests with right, wrong, missing, truncated, re-encoded and look-alike credentials over any number of connections",
  "Tests send a few fixed combinations of good and bad credentials to an otherwise idle server.",
  ["rpc/src/rpc_auth/mod.rs", "rpc/src/lib.rs", "rpc/src/rpc_creds.rs"],
  [("authorisation layer around HTTP and WebSocket handling", "rpc/src/lib.rs")],
  ["the RPC server's sockets"])
p("R02", "The RPC cookie file is whole, private to one run and cleaned up",
  "At any instant, also when a node process is killed at any point, the RPC cookie file is either absent or contains the complete credentials of one node run, never a part or a mix of two, whatever earlier runs left behind; it is readable by its owner only. While a server runs with cookie authentication the file holds exactly the credentials that server accepts. On orderly shutdown the file is removed, and if it cannot be written start-up fails with an error.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point during start-up and shutdown, every failing file operation, left-overs of any earlier run, and any number of successive runs",
  "Tests create and drop the credentials once in a clean temporary directory; no left-over files and no failures or crashes.",
  ["rpc/src/rpc_creds.rs", "utils/src/cookie.rs"],
  [("written to a temporary file which then replaces the cookie file", "rpc/src/rpc_creds.rs"), ("removed when the credentials are dropped", "rpc/src/rpc_creds.rs")],
  ["the cookie file", "rpc::RpcCreds"])
p("R03", "RPC calls and subscriptions answer exactly once and survive bad peers",
  "Every well-formed RPC request is answered exactly once with the result of the called method and the identifier of that request, individually, in batches, over HTTP and over WebSocket; subscribers receive all events in order until they unsubscribe or disconnect. Malformed input, slow readers or abruptly closed connections of one client never affect another, and after a stop request the server terminates, no later than its remaining connections end, and releases its address.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of several clients' requests, with connections fragmented, delayed, reset or closed at any byte, and a server stop at any moment",
  "Tests use one well-behaved client over an idle loopback connection.",
  ["rpc/src/lib.rs", "rpc/src/subscription.rs", "rpc/src/error.rs"],
  [("server built from registered methods and stopped through its handle", "rpc/src/lib.rs"), ("event subscription pumps", "rpc/src/subscription.rs")],
  ["the RPC server's sockets"])

# ------------------------------------------------------------- networking
p("N01", "Message framing survives any fragmentation and rejects bad frames",
  "The sequence of messages received over a peer connection is exactly a prefix of the sequence sent, however the byte stream is split, merged, delayed or cut, and a partial message is never delivered. A frame that is oversized or does not decode ends the connection with an error before any message after it is delivered. A peer that stalls or fails while it connects does not keep others from connecting.",
  ["inputs", "schedules", "fault_sequences"],
  "every message sequence, every fragmentation of the byte stream, truncation or corruption at any byte, and any cancellation of a pending send or receive",
  "Tests send single messages over loopback, which delivers them in one piece.",
  ["networking/src/transport/message_codec.rs", "networking/src/transport/message_stream.rs"],
  [("length-prefixed codec with a size limit", "networking/src/transport/message_codec.rs")],
  ["networking::transport message stream"])

# -------------------------------------------------------------- accounting
p("A01", "Undoing accounting changes restores the exact previous state",
  "Applying any sequence of recorded changes to account balances and account data and then undoing them in reverse order, directly or after merging them into batches of any grouping, and with flushes to the layer below at any points, restores exactly the earlier state. A change that cannot be applied (overflow, unknown or conflicting previous data) is reported as an error, and batches combined in any grouping have the same effect as the single changes applied in order.",
  ["histories", "fault_sequences"],
  "every history of changes, merges, flushes and undos over layered accounting views, with conflicting and overflowing operations injected at any point",
  "Tests cover chosen merges of two or three deltas; the group law has to hold for arbitrary histories and groupings.",
  ["accounting/src/delta/delta_amount_collection.rs", "accounting/src/delta/delta_data_collection/mod.rs", "accounting/src/delta/combine.rs", "accounting/src/block_undo.rs"],
  [("deltas with undo records", "accounting/src/delta/delta_data_collection/mod.rs")],
  ["accounting crate public API"])

p("A02", "Token, pool and order balances always obey their rules",
  "Through every history of issuing, minting, unminting, locking, freezing, changing authority, delegating, spending, creating and decommissioning pools, and creating, filling, freezing and concluding orders, on any stack of accounting layers: the circulating supply of a token equals what was minted minus what was unminted and never exceeds a fixed limit, nothing is minted or unminted once the supply is locked or while the token is frozen; a pool's balance is its pledge plus rewards plus the shares delegated to it, and a delegation's share equals its balance while the pool exists; an order never gives out more than it holds nor at a worse price than was asked. Operations that would break a rule are refused and leave the balances as they were.",
  ["histories", "fault_sequences"],
  "every history of operations, legal or not, interleaved with flushes between layers, dropped layers, undos, storage read and write failures and restarts",
  "The accounting tests check one rule at a time on one layer with chosen amounts; the rules have to hold when earlier operations are still pending in the layer, in a parent, partly flushed or just undone.",
  ["tokens-accounting/src/cache.rs", "tokens-accounting/src/view.rs", "pos-accounting/src/pool/delta/operator_impls.rs", "pos-accounting/src/pool/delta/mod.rs", "orders-accounting/src/cache.rs", "orders-accounting/src/price_calculation.rs"],
  [("operations check the rules against the layered view before recording deltas", "tokens-accounting/src/cache.rs"),
   ("pool and delegation operations", "pos-accounting/src/pool/delta/operator_impls.rs"),
   ("fill, freeze and conclude of orders", "orders-accounting/src/cache.rs")],
  ["TokensAccountingOperations, PoSAccountingOperations, OrdersAccountingOperations"])

# ------------------------------------------------------------------- chain
p("C01", "The node follows the heaviest valid chain whatever the arrival order",
  "After any set of valid blocks has been processed in any order in which parents become known, with orphans, duplicates and forks, the chain tip is a block with the greatest accumulated chain trust among the fully valid chains received, and the tip changes only to a chain of strictly greater trust. Processing the same block again changes nothing.",
  ["histories", "schedules", "inputs"],
  "every block tree and every order of arrival, including duplicates, orphans and invalid blocks mixed in",
  "Reorganisation tests use hand-picked trees and orders.",
  ["chainstate/src/detail/mod.rs", "chainstate/src/detail/chainstateref/mod.rs", "chainstate/src/detail/orphan_blocks"],
  [("block index with accumulated trust; best chain activated when a heavier branch appears", "chainstate/src/detail/mod.rs")],
  ["chainstate interface: best block, block index queries"])
p("C02", "Chain state depends only on the best chain, not on history",
  "After any history of blocks, forks, reorganisations, failed blocks and restarts, the unspent outputs, staking pools, delegations, tokens, orders, account nonces and the height index are exactly those obtained by processing the current best chain alone on a fresh node.",
  ["histories", "inputs"],
  "every history of block arrivals and reorganisations carrying arbitrary valid transactions",
  "Tests compare state after a few hand-picked reorganisations; undo data has to be exact for every kind of transaction in every combination.",
  ["chainstate/src/detail/chainstateref/mod.rs", "chainstate/tx-verifier/src", "utxo/src/cache.rs", "utxo/src/undo.rs", "pos-accounting/src", "tokens-accounting/src", "orders-accounting/src"],
  [("undo data recorded on connect and applied on disconnect", "chainstate/tx-verifier/src")],
  ["the chainstate database", "chainstate interface queries"])
p("C03", "Chain database stays consistent over crashes at any point",
  "If the node is killed or the storage fails at any point of processing blocks, then after restart the chain database is in a state the node had before or after one of the steps it was performing: the tip, height index, block data, undo data and coin state agree with each other and the node continues from there to the same final state as a node that never crashed.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point at or between storage commits, every storage error, over every history of block processing, with repeated crashes",
  "Tests do not crash the node between storage transactions; failures are injected in one or two places.",
  ["chainstate/src/detail/mod.rs", "chainstate/src/detail/chainstateref/mod.rs", "chainstate/storage/src/internal/store_tx/mod.rs"],
  [("block acceptance and best-chain activation each in one storage transaction", "chainstate/src/detail/mod.rs")],
  ["the storage backend underneath the chainstate database"])
p("C04", "Coins and tokens are conserved and never spent twice",
  "At every point of any history, the total of all coins in unspent outputs, staking pools, delegations and orders equals the genesis supply plus the block subsidies of the best chain minus what was burnt as fees or explicitly, each token's circulating amount equals what was issued minus what was burnt, and no output or account nonce is consumed twice on the best chain.",
  ["histories", "inputs"],
  "every history of valid and invalid transactions and blocks, including reorganisations",
  "Tests assert balances for single transactions; conservation over whole histories with reorganisations is not checked.",
  ["chainstate/constraints-value-accumulator/src", "chainstate/tx-verifier/src", "utxo/src/cache.rs"],
  [("inputs and outputs accumulated and compared per transaction and block", "chainstate/constraints-value-accumulator/src")],
  ["chainstate interface queries", "the chainstate database"])
p("C05", "A rejected block leaves no trace on the chain state",
  "A block that fails any check, alone or in the middle of a reorganisation to its branch, never becomes part of the best chain and leaves the best chain and the whole coin state exactly as they were or on the best remaining valid branch; its descendants are rejected too.",
  ["histories", "inputs"],
  "every invalid block (bad signature, double spend, inflation, wrong difficulty, missing input) at any depth of a heavier branch, in any order of arrival",
  "Tests reject single invalid blocks on top of a short chain and a few mid-reorganisation failures.",
  ["chainstate/src/detail/mod.rs", "chainstate/src/detail/block_invalidation", "chainstate/src/detail/chainstateref/mod.rs"],
  [("failed activation rolled back and the branch marked invalid", "chainstate/src/detail/block_invalidation")],
  ["chainstate interface queries"])

# ----------------------------------------------------------------- mempool
p("M01", "The mempool always holds a consistent set valid on the current tip",
  "After any history of submitted transactions, new blocks, reorganisations, expiry and eviction, the transactions in the mempool form a set without conflicts, whose members are all valid on the current tip together with their in-pool parents, and none is already confirmed. Its totals for size, fees, ancestors and descendants equal those recomputed from its contents, and it never exceeds its size limit.",
  ["histories", "schedules"],
  "every interleaving of transaction arrivals (with conflicts, chains, orphans, duplicates), tip changes and clock advances, any size limit",
  "Tests drive fixed small scenarios; bookkeeping under arbitrary mixes of eviction, replacement, expiry and reorganisation is not covered.",
  ["mempool/src/pool/mod.rs", "mempool/src/pool/tx_pool", "mempool/src/pool/orphans"],
  [("transaction store with ancestor/descendant indices, re-validation on new tip", "mempool/src/pool/tx_pool")],
  ["mempool interface"])
p("M02", "Transactions picked for a block always form a valid block",
  "Whatever the mempool has been through, the transactions it selects for a new block on the current tip are in dependency order, within the size limit, and are accepted together with all their signatures by block validation on that tip.",
  ["histories", "schedules"],
  "every history of the mempool and chain up to the moment of selection",
  "Tests collect transactions from small hand-made pools.",
  ["mempool/src/pool/tx_pool/collect_txs.rs", "blockprod/src/detail"],
  [("collection by feerate respecting dependencies, with a verifier on the tip", "mempool/src/pool/tx_pool/collect_txs.rs")],
  ["mempool collect transactions", "chainstate block processing"])

# --------------------------------------------------------------------- p2p
p("P01", "Honest connected nodes converge to the same best chain",
  "When nodes that exchange blocks over an unreliable network with delays, disconnections, partitions and restarts stay connected for long enough after the last fault, they all reach the same chain tip, the heaviest among those that any of them has, within a bounded time.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "every topology, network schedule, partition and heal, restart and block production history",
  "P2P tests use two peers on a reliable local transport.",
  ["p2p/src/sync", "p2p/src/peer_manager", "chainstate/src/detail"],
  [("header and block download protocol per peer", "p2p/src/sync/peer")],
  ["each node's best block over time"])
p("P02", "Honest peers are never banned; bans hold until they expire",
  "A peer that follows the protocol is never banned or discouraged, whatever delays within the protocol's own time limits, broken connections, partitions, restarts and reorganisations occur; a banned address can neither connect nor be connected to until the ban expires, also across restarts, and no longer than that.",
  ["schedules", "fault_sequences", "histories"],
  "every network schedule, clock advance and restart history",
  "Tests check bans right after a single misbehaviour with a mocked clock.",
  ["p2p/src/peer_manager", "p2p/src/peer_manager/peerdb", "p2p/src/sync/peer"],
  [("ban score per peer; banned addresses stored with expiry", "p2p/src/peer_manager/peerdb")],
  ["peer manager connection decisions"])
p("P03", "Accepted transactions reach every connected node",
  "A transaction that a node accepts from its user reaches the mempool, or the chain, of every node that is synchronised and connected to it directly or through others, within a bounded time; if the node has no peers at that moment, it announces the transaction again once it has. Chains of dependent transactions arrive completely, whatever order they are delivered in, and also when blocks and tips change meanwhile or nodes have only just started or finished their initial block download.",
  ["schedules", "fault_sequences", "histories"],
  "every topology, network schedule, order of submissions, block production history and moment of (re)connection",
  "Tests relay single transactions between two mocked peers.",
  ["p2p/src/sync/peer/transaction_manager.rs", "p2p/src/sync/mod.rs", "mempool/src/pool", "mempool/src/interface"],
  [("announce/request/response per peer with filters of known transactions; unconfirmed local transactions announced again", "p2p/src/sync")],
  ["each node's mempool and chain over time"])

# ----------------------------------------------------------------- wallet
p("W01", "Wallet state equals a rescan and survives crashes",
  "After any history of new blocks, reorganisations, created and abandoned transactions and crashes, the wallet reports the balances, unspent outputs and transaction states that a freshly restored wallet scanning the best chain would report (plus its own pending transactions), and never signs a double spend of its own confirmed output.",
  ["histories", "crash_points"],
  "every history of chain updates and wallet operations with crashes at any storage commit",
  "Wallet tests check single operations on linear chains; crash points are not tested.",
  ["wallet/src/wallet", "wallet/src/account", "wallet/storage/src"],
  [("wallet operations within storage transactions; rescan from the last synced block", "wallet/src/wallet")],
  ["wallet interface"])

# -------------------------------------------------- pure functions (listed for completeness)
p("X01", "Encoding of consensus objects is canonical and round-trips",
  "Every consensus object decodes from its encoding to an equal object, decoding consumes exactly the encoded bytes and never crashes on arbitrary input, and equal objects have equal encodings and ids.",
  ["inputs"], "every object and every byte string",
  "Tests sample a few objects and golden encodings.",
  ["serialization/core/src/lib.rs", "serialization/tagged/src/lib.rs", "common/src/chain"],
  [("SCALE encoding derive", "serialization/core/src/lib.rs")], ["encode/decode"])
p("X02", "Amount and fixed-point arithmetic never wraps and is exact",
  "Arithmetic on amounts, 256-bit integers, per-thousand fractions and rational numbers is exact or reports overflow, and textual and numeric conversions round-trip.",
  ["inputs"], "all operand values",
  "Tests sample operand values.",
  ["common/src/primitives/amount", "common/src/uint", "common/src/primitives/per_thousand.rs"],
  [("checked operations", "common/src/primitives/amount")], ["public arithmetic API"])
p("X03", "Signatures verify exactly for what was signed",
  "A signature verifies under the matching key and message only; changing any covered part of a transaction invalidates it.",
  ["inputs"], "all keys, messages, transactions and signature-hash modes",
  "Tests sample keys and messages.",
  ["crypto/src/key", "common/src/chain/transaction/signature"],
  [("Schnorr/secp256k1 over a structured signature hash", "common/src/chain/transaction/signature")], ["sign/verify"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
