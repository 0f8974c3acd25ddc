mod deltas;
mod orders;
mod pos;
mod tokens;
mod util;
mod world;
use detsim::{Harness, Scenario};
fn main() {
    let s = |name, property, weight, run, quick| Scenario { name, property, weight, run, quick };
    detsim::main_entry(Harness {
        name: "h-accounting",
        scenarios: vec![
            s("deltas", "A01", 2, deltas::layers, 6000),
            s("grouping", "A01", 1, deltas::grouping, 4000),
            s("pos", "A01", 2, world::run::<pos::PoS>, 4000),
            s("tokens", "A01", 2, world::run::<tokens::Tokens>, 4000),
            s("orders", "A01", 2, world::run::<orders::Orders>, 4000),
            s("pos_rules", "A02", 1, world::run::<pos::PoS>, 4000),
            s("tokens_rules", "A02", 1, world::run::<tokens::Tokens>, 4000),
            s("orders_rules", "A02", 1, world::run::<orders::Orders>, 4000),
        ],
        real: &["accounting (delta collections)", "pos-accounting", "tokens-accounting", "orders-accounting"],
        stub: &["database under the accounting: maps with injected read and write failures", "enum-iterator crate (stand-in, unavailable offline)", "clock, randomness (detsim)"],
    })
}
