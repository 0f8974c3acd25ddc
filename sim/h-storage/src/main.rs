mod model;
mod seq;
mod shared;
mod typed;
use detsim::{Harness, Scenario};
fn main() {
    simvfs::install();
    detsim::main_entry(Harness {
        name: "h-storage",
        scenarios: vec![
            Scenario { name: "sqlite", property: "S01", weight: 2, run: seq::sqlite, quick: 3000 },
            Scenario { name: "inmem", property: "S01", weight: 1, run: seq::inmem, quick: 3000 },
            Scenario { name: "shared_s01", property: "S01", weight: 1, run: shared::inmem, quick: 5000 },
            Scenario { name: "shared", property: "S02", weight: 2, run: shared::inmem, quick: 6000 },
            Scenario { name: "sqlite_readers", property: "S02", weight: 1, run: shared::sqlite, quick: 2000 },
            Scenario { name: "sqlite_s03", property: "S03", weight: 2, run: seq::sqlite, quick: 3000 },
            Scenario { name: "inmem_s03", property: "S03", weight: 1, run: seq::inmem, quick: 3000 },
            Scenario { name: "crash", property: "S04", weight: 1, run: seq::crash, quick: 5000 },
            Scenario { name: "faults", property: "S05", weight: 1, run: seq::faults, quick: 5000 },
            Scenario { name: "typed", property: "S06", weight: 1, run: typed::run, quick: 5000 },
        ],
        real: &["storage-core (adaptor, traits)", "storage-inmemory", "storage-sqlite", "storage (typed layer)", "rusqlite and SQLite itself"],
        stub: &["disk: SQLite VFS with in-memory files, unsynced-write tracking, crashes and faults", "SQLite's allocator (can fail)", "OS thread scheduler, clock, randomness (detsim)"],
    })
}
