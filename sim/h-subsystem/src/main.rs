mod calls;
mod model;
mod shutdown;
mod subs;
use detsim::{Harness, Scenario};
fn main() {
    detsim::main_entry(Harness {
        name: "h-subsystem",
        scenarios: vec![
            Scenario { name: "calls", property: "U01", weight: 3, run: calls::calls, quick: 4000 },
            Scenario { name: "orderly_u01", property: "U01", weight: 1, run: shutdown::orderly, quick: 1500 },
            Scenario { name: "calls_u02", property: "U02", weight: 3, run: calls::calls, quick: 5000 },
            Scenario { name: "orderly", property: "U03", weight: 3, run: shutdown::orderly, quick: 4000 },
            Scenario { name: "failure_u03", property: "U03", weight: 1, run: shutdown::failure, quick: 1500 },
            Scenario { name: "failure", property: "U04", weight: 3, run: shutdown::failure, quick: 4000 },
            Scenario { name: "orderly_u04", property: "U04", weight: 1, run: shutdown::orderly, quick: 1500 },
        ],
        real: &["subsystem (manager, tasks, calls, blocking handles, triggers)", "utils", "tokio multi-thread and current-thread runtimes, RwLock, mpsc, oneshot, watch, timers"],
        stub: &["OS thread scheduler, clock, timers, randomness (detsim)", "OS signals (signal handlers are not enabled)"],
    })
}
