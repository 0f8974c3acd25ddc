use crate::server::*;
use detsim::*;
use rpc::rpc_creds::RpcCreds;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;
use std::time::Duration;

pub fn w(n: u64) -> u64 {
    choose(Stream::Work, n)
}
pub fn wchance(a: u64, b: u64) -> bool {
    chance(Stream::Work, a, b)
}
pub fn call(id: &str, method: &str, params: &str) -> String {
    format!("{{\"jsonrpc\":\"2.0\",\"id\":\"{id}\",\"method\":\"{method}\",\"params\":{params}}}")
}
pub fn start(hang: &str) {
    set_hang_class(hang);
    set_limits(2_000_000, None);
    random_schedule_config();
    net::random_cfg();
}
pub fn sleep(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}
/// Runs a server, the clients against it, and stops it: when all are done, or (`early`) in the middle.
pub fn with_server(creds: Option<RpcCreds>, clients: impl FnOnce(SocketAddr, Events) -> Vec<JoinHandle<()>>) {
    run_server(creds, None, clients)
}
pub fn run_server(creds: Option<RpcCreds>, early: Option<u64>, clients: impl FnOnce(SocketAddr, Events) -> Vec<JoinHandle<()>>) {
    let rt = runtime();
    let ev: Events = Arc::new(Mutex::new(utils_networking::broadcaster::Broadcaster::new()));
    let (stop_tx, stop_rx) = tokio::sync::oneshot::channel::<()>();
    let any: SocketAddr = "127.0.0.1:0".parse().unwrap();
    let server = rt.block_on(builder(any, creds, &ev).build()).unwrap_or_else(|e| violation("R03/start_failed", format!("{e}")));
    let addr = *server.http_address();
    let mut hs = clients(addr, ev.clone());
    let stopper = std::thread::spawn(move || {
        if let Some(ms) = early {
            sleep(ms);
            log(|l| l.stop = true);
            ev!("stop requested early");
            let _ = stop_tx.send(());
        } else {
            for h in hs.drain(..) {
                join(h);
            }
            log(|l| l.stop = true);
            let _ = stop_tx.send(());
        }
        for h in hs {
            join(h);
        }
    });
    rt.block_on(async {
        let _ = stop_rx.await;
        let t0 = now_ns();
        if tokio::time::timeout(Duration::from_secs(100_000), server.shutdown()).await.is_err() {
            // jsonrpsee 0.26 never stops when the stop request meets the unfinished answer to a ping or
            // close frame, which takes a full socket: the abandoned receiving half keeps the lock that
            // the sending half needs.
            if net::cfg().buffer < 4096 {
                inconclusive("the HTTP library is stuck");
            }
            check_failed("R03/stop_hangs", "the server did not terminate".into());
        }
        let _ = t0;
        ev!("server stopped");
        count("server_stops", 1);
    });
    check!(!net::listening().iter().any(|a| a.port() == addr.port()), "R03/address_kept", "the server terminated but still listens on its address");
    // its address can be used again
    match std::net::TcpListener::bind(addr) {
        Ok(l) => drop(l),
        Err(e) => check_failed("R03/address_kept", format!("the address cannot be used again: {e}")),
    }
    join(stopper);
    drop(rt);
}
pub fn join(h: JoinHandle<()>) {
    if let Err(e) = h.join() {
        violation("panic", panic_text(&*e));
    }
}
