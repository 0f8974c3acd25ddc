HOOKS = {"guard": "none", "enable": "no hooks in /repo: the simulator interposes libc symbols and instruments crates through a rustc wrapper in /verif/sim", "source_commits": []}
CLAIMS = {
 "S01": ("h-storage", "seeded transaction histories with aborts, drops and panics over in-memory and SQLite backends and concurrent writers, against sorted-map model"),
 "S02": ("h-storage", "seeded interleavings of reader and writer threads; version-chain history oracle (snapshot, lost update, real-time order, deadlock)"),
 "S03": ("h-storage", "seeded histories with adversarial keys and scan bounds, own writes, overlapping readers and reopening, against sorted-map model"),
 "S04": ("h-storage", "real SQLite over a simulated disk; crash at any disk operation, unsynced data lost, kept or torn, repeated crashes; committed-prefix oracle"),
 "S05": ("h-storage", "real SQLite over a simulated disk with I/O errors, torn failing writes, full disk, failed syncs and allocations; atomicity and recovery oracle"),
 "S06": ("h-storage", "typed layer over backends failing at any operation, shared handles, dump and restore, against typed model"),
 "E01": ("h-utils", "seeded schedules of producers, slow handlers, waits, late subscriptions and drop against a per-handler sequence model"),
 "E02": ("h-utils", "seeded schedules of broadcaster, churning subscribers, threads and async receivers with cancelled receives"),
 "E03": ("h-utils", "seeded schedules of starting/ending/panicking activities and waiters; interval oracle"),
 "U01": ("h-subsystem", "seeded schedules of async, pipelined, blocking, nested and abandoned calls with orderly shutdowns"),
 "U02": ("h-subsystem", "same runs; exclusion, freshness and settled-state checks inside every call"),
 "U03": ("h-subsystem", "shutdown requested from anywhere with calls, flag watchers and hooks in flight; order, once-only, availability"),
 "U04": ("h-subsystem", "injected init errors, panics, stuck calls/init/hooks; virtual-time bound on the manager's end"),
 "N01": ("h-net", "real framing over pipes that split, delay, corrupt and cut; real TCP and SOCKS5 transports over simulated sockets with resets; stalled and broken handshakes; sent-prefix oracle"),
 "A01": ("h-accounting", "seeded histories of changes, merges, flushes, undos and storage failures over stacked accounting layers, against per-state snapshots and a reference model"),
 "A02": ("h-accounting", "seeded histories of legal and illegal operations over stacked layers with storage failures and restarts, against a reference model of the rules"),
 "R01": ("h-rpc", "real RPC server over simulated sockets; seeded clients with right and look-alike credentials on fresh, reused and pipelined connections; executed-calls oracle"),
 "R02": ("h-rpc", "successive node runs over a simulated file system, killed or failing at any file operation, with concurrent readers and a served probe"),
 "R03": ("h-rpc", "real RPC server over simulated sockets with split, delayed and short transfers; good, slow, malformed and resetting clients, stop at any time; answer and event sequence oracle"),
 "M01": ("h-mempool", "real mempool and chainstate subsystems; seeded submissions (conflicts, chains, orphans, duplicates, cheats), expiry, eviction, reorganisations and races with tip changes; contents checked against an independent recomputation and ledger"),
 "M02": ("h-mempool", "same node; transactions collected for a block at any moment of such histories, packed into a block and processed by the chain"),
 "P01": ("h-p2p", "several whole nodes (chain, mempool, p2p) over a simulated network with partitions, resets, delays, clock skew, kills and restarts; convergence within bounded simulated time after the last fault"),
 "P02": ("h-p2p", "same nodes mining, reorganising, relaying and restarting; no honest peer punished; operator bans hold across restarts until they end, no longer"),
 "P03": ("h-p2p", "same nodes; transactions submitted anywhere at any time, also before peers exist; arrival everywhere within bounded simulated time"),
 "C01": ("h-chain", "real chainstate over storage-lmdb and a simulated LMDB; seeded block trees (PoW and PoS) handed in in seeded orders with orphans, duplicates and bad blocks; heaviest-chain oracle after every step"),
 "C02": ("h-chain", "same node through seeded reorganisations, invalidations and restarts; whole database compared with a fresh node that saw only the best chain"),
 "C03": ("h-chain", "same node killed or failing at any simulated storage operation, unsynced commits lost, repeatedly; consistency checker, state comparison and final-state oracle after restart"),
 "C04": ("h-chain", "seeded economies (tokens, NFTs, orders, pools, delegations, burns) with cheating transactions, through reorganisations; independent ledger recomputed from the best chain's blocks"),
 "C05": ("h-chain", "seeded trees with bad blocks at any depth, invalidation and reset at any time; no-trace comparison and status oracle"),
}
NA = {
 "W01": "applicable in principle, but the wallet crates do not build offline here without stand-ins for hardware-wallet and database crates; no check is claimed",
 "X01": "pure function of its input (no schedule, clock, I/O or peers for a simulator to control)",
 "X02": "pure function of its input (no schedule, clock, I/O or peers for a simulator to control)",
 "X03": "pure function of its input (no schedule, clock, I/O or peers for a simulator to control)",
}
