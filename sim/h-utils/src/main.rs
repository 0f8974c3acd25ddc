mod bcast;
mod counters;
mod events;
use detsim::{Harness, Scenario};
fn main() {
    detsim::main_entry(Harness {
        name: "h-utils",
        scenarios: vec![
            Scenario { name: "event_bus", property: "E01", weight: 3, run: events::event_bus, quick: 6000 },
            Scenario { name: "event_bus_drop", property: "E01", weight: 1, run: events::event_bus_drop, quick: 2000 },
            Scenario { name: "broadcast_threads", property: "E02", weight: 2, run: bcast::threads, quick: 4000 },
            Scenario { name: "broadcast_tasks", property: "E02", weight: 2, run: bcast::tasks, quick: 4000 },
            Scenario { name: "wait_for_zero", property: "E03", weight: 3, run: counters::wait_for_zero, quick: 6000 },
            Scenario { name: "atomic_ops", property: "E03", weight: 1, run: counters::atomic_ops, quick: 2000 },
        ],
        real: &["utils (eventhandler, blockuntilzero, counttracker, atomics, once_destructor)", "utils-networking broadcaster", "slave-pool", "tokio (current-thread runtime, sync)", "std threads, locks and channels"],
        stub: &["thread scheduler, clock, sleep and OS randomness (detsim)"],
    })
}
