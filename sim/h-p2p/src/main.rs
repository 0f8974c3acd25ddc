mod eco;
mod node;
mod run;
use detsim::{Harness, Scenario};
fn main() {
    if std::env::var_os("RUST_LOG").is_some() {
        logging::init_logging();
    }
    let s = |name, property, weight, run, quick| Scenario { name, property, weight, run, quick };
    detsim::main_entry(Harness {
        name: "h-p2p",
        scenarios: vec![s("converge", "P01", 3, run::converge, 60), s("honest", "P02", 3, run::honest, 50), s("bans", "P02", 1, run::bans, 30), s("relay", "P03", 1, run::relay, 60)],
        real: &[
            "p2p (backend, peers, handshake, peer manager, peer database, block and transaction sync, subsystem wrapper), networking (TCP transport, message codec)",
            "mempool, chainstate, chainstate-storage, storage-inmemory, tx-verifier, utxo, the accounting crates, consensus",
            "subsystem (manager, calls), tokio multi-thread runtime, mio, utils",
        ],
        stub: &[
            "sockets, clocks, randomness, thread scheduling (detsim)",
            "codec derives, Noise and SOCKS protocols, cryptographic crates that are not available offline (shims)",
            "wallets and block production (the scenario)",
        ],
    })
}
