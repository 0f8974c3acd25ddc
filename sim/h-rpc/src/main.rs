mod auth;
mod calls;
mod cookie;
mod http;
mod server;
mod util;
use detsim::{Harness, Scenario};
fn main() {
    let s = |name, property, weight, run, quick| Scenario { name, property, weight, run, quick };
    detsim::main_entry(Harness {
        name: "h-rpc",
        scenarios: vec![s("auth", "R01", 1, auth::auth, 3000), s("cookie", "R02", 1, cookie::cookie, 3000), s("calls", "R03", 5, calls::calls, 1500), s("burst", "R03", 1, calls::burst, 60)],
        real: &["rpc (server, credentials, authentication, subscriptions)", "jsonrpsee server, hyper, soketto, tokio with mio over simulated epoll and sockets"],
        stub: &["TCP (in-process model with delays, splitting, short reads and writes, small buffers, resets)", "files under /simfs (in memory, with failures and process deaths)", "raw HTTP and WebSocket clients of the harness", "OS thread scheduler, clock, randomness (detsim)"],
    })
}
