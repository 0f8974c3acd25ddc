mod chain;
mod economy;
mod node;
mod run;
use detsim::{Harness, Scenario};
fn main() {
    let s = |name, property, weight, run, quick| Scenario { name, property, weight, run, quick };
    detsim::main_entry(Harness {
        name: "h-mempool",
        scenarios: vec![
            s("pool", "M01", 3, run::pool, 400),
            s("small", "M01", 2, run::small_pool, 300),
            s("race", "M01", 3, run::race, 300),
            s("mine", "M02", 3, run::mine, 400),
            s("mine_race", "M02", 2, run::mine_race, 300),
        ],
        real: &[
            "mempool (transaction pool, orphan pool, work queue, collection for blocks, subsystem wrapper)",
            "chainstate, chainstate-storage, storage-inmemory, tx-verifier, utxo, the accounting crates, consensus",
            "subsystem (manager, calls), tokio multi-thread runtime, utils (event handler threads)",
        ],
        stub: &["clock (set by the scenario), randomness, thread scheduling (detsim)", "codec derives and cryptographic crates that are not available offline (shims)", "peers, wallet and block production (the scenario)"],
    })
}
