mod economy;
mod ledger;
mod node;
mod run;
mod world;
use detsim::{Harness, Scenario};
use run::Mode;
fn main() {
    let s = |name, property, weight, run, quick| Scenario { name, property, weight, run, quick };
    detsim::main_entry(Harness {
        name: "h-chain",
        scenarios: vec![
            s("order", "C01", 2, || run::run(Mode { prop: "C01", bad: 10, ..Mode::default() }), 1500),
            s("order_pos", "C01", 1, || run::run(Mode { prop: "C01", pos: true, ..Mode::default() }), 400),
            s("reorg", "C02", 2, || run::run(Mode { prop: "C02", bad: 10, invalidate: true, ..Mode::default() }), 1500),
            s("reorg_pos", "C02", 1, || run::run(Mode { prop: "C02", pos: true, invalidate: true, ..Mode::default() }), 400),
            s("crash", "C03", 2, || run::run(Mode { prop: "C03", bad: 15, crash: true, ..Mode::default() }), 1500),
            s("errors", "C03", 2, || run::run(Mode { prop: "C03", bad: 15, crash: true, errors: true, invalidate: true, ..Mode::default() }), 1500),
            s("crash_pos", "C03", 1, || run::run(Mode { prop: "C03", pos: true, crash: true, errors: true, ..Mode::default() }), 400),
            s("bad", "C05", 2, || run::run(Mode { prop: "C05", bad: 30, invalidate: true, ..Mode::default() }), 1500),
            s("value", "C04", 3, || run::run(Mode { prop: "C04", bad: 25, economy: true, invalidate: true, ..Mode::default() }), 1500),
            s("value_pos", "C04", 1, || run::run(Mode { prop: "C04", pos: true, economy: true, invalidate: true, ..Mode::default() }), 400),
        ],
        real: &[
            "chainstate (block processing, reorganisation, invalidation, orphans, consistency checker)",
            "chainstate-storage, storage (typed layer), storage-core, storage-lmdb",
            "tx-verifier, constraints-value-accumulator, consensus, utxo, pos-accounting, tokens-accounting, orders-accounting, accounting",
            "chainstate-test-framework over storage-inmemory (generates blocks and reference states)",
            "common, crypto (signatures, VRF), serialization",
        ],
        stub: &[
            "LMDB itself: a simulated engine with the same Rust interface (snapshots, single writer, map size, unsynced commits, crashes and errors)",
            "codec derives for enum-flag sets, one-shot channels and mocks (shims of crates that are not available offline)",
            "clock, randomness, thread scheduling (detsim)",
        ],
    })
}
