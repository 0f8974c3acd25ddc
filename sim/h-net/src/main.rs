mod framing;
mod tcp;
use detsim::{Harness, Scenario};
fn main() {
    let s = |name, property, weight, run, quick| Scenario { name, property, weight, run, quick };
    detsim::main_entry(Harness {
        name: "h-net",
        scenarios: vec![s("framing", "N01", 2, framing::framing, 4000), s("writer", "N01", 1, framing::writer, 3000), s("tcp", "N01", 1, tcp::tcp, 800), s("handshakes", "N01", 1, tcp::handshakes, 40)],
        real: &["networking (message codec, message stream, TCP transport, stream adapters, listener with concurrent handshakes)", "tokio, mio, serialization (typed layer)"],
        stub: &["sockets, clock, randomness, thread scheduling (detsim)", "codec derives, Noise and SOCKS protocols, socket2 0.5 (shims of crates that are not available offline)"],
    })
}
