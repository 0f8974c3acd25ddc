//! Peers talking over the shipped transports on the simulated network.
use crate::framing::{Msg, frame, msg, w};
use detsim::*;
use networking::transport::*;
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;
use tokio::io::AsyncWriteExt;
use tokio::task::JoinHandle;

const MAGIC: &str = "hello";
const LIMIT: usize = 4000;
/// Peers that start later than this come after many silent ones.
const LATE: u64 = 100_000;
#[derive(Default, Clone)]
struct Peer {
    /// [client to server, server to client]
    send: [Vec<Msg>; 2],
    sent: [usize; 2],
    got: [usize; 2],
    connected: bool,
    accepted: bool,
}
#[derive(Default)]
struct Model {
    peers: Vec<Peer>,
    broken: bool,
    done: bool,
}
static M: SimCell<Option<Model>> = SimCell::new(None);
fn m<R>(f: impl FnOnce(&mut Model) -> R) -> R {
    M.with(|x| f(x.get_or_insert_with(Default::default)))
}
fn broken() -> bool {
    m(|m| m.broken)
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn runtime() -> tokio::runtime::Runtime {
    let n = w(3);
    if n == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(n as usize).enable_all().build().unwrap()
    }
}
/// Receives what the other side sends until the end of the stream (`all`) or until nothing more is to come.
async fn receive<S: PeerStream>(mut r: MessageReader<S, Msg>, id: usize, dir: usize, to_the_end: bool, cancel: u64) -> MessageReader<S, Msg> {
    let want = m(|m| m.peers[id].send[dir].clone());
    let mut got = if dir == 0 { 1 } else { 0 };
    loop {
        if !to_the_end && got == want.len() {
            return r;
        }
        let res = if cancel > 0 {
            match tokio::time::timeout(ms(cancel), r.recv()).await {
                Err(_) => {
                    count("fault.recv_cancelled", 1);
                    continue;
                }
                Ok(x) => x,
            }
        } else {
            r.recv().await
        };
        match res {
            Ok(x) => {
                ev!("peer {id} dir {dir} got {}", x.0);
                check!(want.get(got) == Some(&x), "N01/sequence", "peer {id}, direction {dir}: message {got} is {} ({} bytes) instead of {:?}", x.0, x.2.len(), want.get(got).map(|x| (x.0, x.2.len())));
                let sent = m(|m| m.peers[id].sent[dir]);
                check!(got < sent, "N01/sequence", "peer {id}, direction {dir}: message {got} was received before it was sent");
                got += 1;
                m(|m| m.peers[id].got[dir] = got);
                count("messages", 1);
            }
            Err(e) => {
                ev!("peer {id} dir {dir} ends: {e:?}");
                if !broken() && m(|m| m.peers[id].accepted) {
                    check!(to_the_end && got == want.len(), "N01/lost", "peer {id}, direction {dir}: the stream ended with {e:?} after {got} of {} messages", want.len());
                    check!(format!("{e:?}").contains("UnexpectedEof"), "N01/wrong_end", "peer {id}, direction {dir}: the end of the stream is reported as {e:?}");
                }
                return r;
            }
        }
    }
}
async fn send<S: PeerStream>(mut wr: MessageWriter<S, Msg>, id: usize, dir: usize, gap: u64) -> MessageWriter<S, Msg> {
    let all = m(|m| m.peers[id].send[dir].clone());
    for (i, x) in all.into_iter().enumerate() {
        m(|m| m.peers[id].sent[dir] = i + 1);
        if let Err(e) = wr.send(x).await {
            check!(broken() || !m(|m| m.peers[id].accepted), "N01/send_failed", "peer {id}, direction {dir}: sending message {i} fails with {e:?} although nothing broke");
            return wr;
        }
        if gap > 0 {
            tokio::time::sleep(ms(gap)).await;
        }
    }
    wr
}
async fn client<T: TransportSocket + 'static>(t: Arc<T>, addr: SocketAddr, id: usize, after: u64, limit: Duration) {
    tokio::time::sleep(ms(after % LATE)).await;
    for session in 0..4 {
        client_session(t.clone(), addr, id, if after >= LATE || session > 0 { 3 } else { 1 }, limit).await;
        // The other side may have given up the handshake just when it was complete here.
        for _ in 0..300 {
            if broken() || m(|m| m.peers[id].accepted) {
                return;
            }
            tokio::time::sleep(ms(100)).await;
        }
        count("sessions_again", 1);
    }
}
async fn client_session<T: TransportSocket + 'static>(t: Arc<T>, addr: SocketAddr, id: usize, mut tries: u64, limit: Duration) {
    // While all of the other side's handshakes are taken by silent peers, its own may time out.
    let r = loop {
        let r = tokio::time::timeout(limit, t.connect(addr)).await;
        tries -= 1;
        if tries == 0 || matches!(r, Ok(Ok(_))) {
            break r;
        }
        count("reconnects", 1);
    };
    let s = match r {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => {
            check!(broken(), "N01/cannot_connect", "peer {id} cannot connect: {e:?}");
            return;
        }
        Err(_) => {
            check!(broken(), "N01/cannot_connect", "peer {id} is not connected within {limit:?}");
            return;
        }
    };
    m(|m| m.peers[id].connected = true);
    ev!("peer {id} connected");
    let (r, wr) = new_message_stream::<_, Msg>(s, Some(LIMIT));
    let (gap, cancel) = (w(3) * 40, [0, 0, 1, 30][w(4) as usize]);
    let a = tokio::spawn(send(wr, id, 0, gap));
    let b = tokio::spawn(receive(r, id, 1, false, cancel));
    let _halves = (a.await.expect("sender"), b.await.expect("receiver"));
    ev!("peer {id} closes");
}
async fn serve<S: PeerStream + 'static>(s: S) {
    let (mut r, wr) = new_message_stream::<_, Msg>(s, Some(LIMIT));
    // Misbehaving peers never get a message through; honest ones say who they are.
    let first = match tokio::time::timeout(Duration::from_secs(600), r.recv()).await {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            ev!("nobody: {e:?}");
            return;
        }
        Err(_) => return,
    };
    check!(first.3 == MAGIC && (first.0 as usize) < m(|m| m.peers.len()), "N01/sequence", "the first message of a connection is {first:?}");
    let id = first.0 as usize;
    m(|m| {
        check!(m.peers[id].send[0].first() == Some(&first) && !m.peers[id].accepted, "N01/sequence", "the first message of a connection is {first:?}");
        m.peers[id].accepted = true;
    });
    let (gap, cancel) = (w(3) * 40, [0, 0, 1, 30][w(4) as usize]);
    let a = tokio::spawn(send(wr, id, 1, gap));
    let b = tokio::spawn(receive(r, id, 0, true, cancel));
    let _halves = (a.await.expect("sender"), b.await.expect("receiver"));
}
/// Connects and misbehaves.
async fn bad(addr: SocketAddr, kind: u64, after: u64, stay: u64) {
    tokio::time::sleep(ms(after)).await;
    let Ok(mut s) = tokio::net::TcpStream::connect(addr).await else { return };
    count(["fault.silent_peer", "fault.garbage_peer", "fault.closing_peer", "fault.partial_peer"][kind as usize], 1);
    match kind {
        0 => {}
        1 => drop(s.write_all(&[0xff; 70]).await),
        2 => return,
        // The beginning of a handshake or of a frame.
        _ => {
            let mut v = frame(&[7; 100]);
            v[0] = 0;
            v[1] = 32;
            v.truncate(1 + w(60) as usize);
            let _ = s.write_all(&v).await;
        }
    }
    tokio::time::sleep(ms(stay)).await;
}
async fn accept_all<L: TransportListener + 'static>(mut l: L, cancel: u64) {
    let mut served: Vec<JoinHandle<()>> = vec![];
    while !m(|m| m.done) {
        // Given up and taken up again all the time, as in a select.
        match tokio::time::timeout(ms(cancel), l.accept()).await {
            Err(_) => count("fault.accept_cancelled", 1),
            Ok(Ok((s, from))) => {
                check!(s.remote_address().ok() == Some(from), "N01/address", "a connection from {from} says it comes from {:?}", s.remote_address());
                served.push(tokio::spawn(serve(s)));
            }
            Ok(Err(e)) => ev!("accept: {e:?}"),
        }
    }
    drop(l);
    for s in served {
        if tokio::time::timeout(Duration::from_secs(100_000), s).await.expect("a connection is never over").is_err() {
            violation("panic", "serving a connection".into());
        }
    }
}
async fn go<T: TransportSocket + 'static>(t: T, peers: u64, bads: Vec<(u64, u64, u64)>, breaks: Vec<u64>, limit: Duration, late: u64)
where
    T::Listener: 'static,
{
    m(|m| {
        for id in 0..peers {
            let mut p = Peer::default();
            p.send[0].push((id as u32, None, vec![], MAGIC.into()));
            for (dir, n) in [(0, w(6)), (1, w(6))] {
                p.send[dir].extend((0..n).map(|i| msg(1000 * (id as u32 + 1) + i as u32, 1500)));
            }
            m.peers.push(p);
        }
    });
    let t = Arc::new(t);
    let l = t.bind(vec!["127.0.0.1:0".parse().unwrap(); 1 + w(2) as usize]).await.unwrap_or_else(|e| violation("N01/cannot_bind", format!("{e:?}")));
    let addrs = l.local_addresses().unwrap_or_else(|e| violation("N01/cannot_bind", format!("{e:?}")));
    let acceptor = tokio::spawn(accept_all(l, if late > 0 { [50, 300, 3000, 9000] } else { [1, 20, 100, 3000] }[w(4) as usize]));
    let mut others: Vec<_> = bads.into_iter().map(|(k, after, stay)| tokio::spawn(bad(addrs[w(addrs.len() as u64) as usize], k, after, stay))).collect();
    others.extend(breaks.into_iter().map(|b| {
        tokio::spawn(async move {
            tokio::time::sleep(ms(b)).await;
            m(|m| m.broken = true);
            let n = net::break_connections(None);
            count("fault.connections_broken", n as u64);
        })
    }));
    let clients: Vec<_> = (0..peers as usize).map(|id| tokio::spawn(client(t.clone(), addrs[w(addrs.len() as u64) as usize], id, late + w(4) * w(1500), limit))).collect();
    for c in clients {
        if tokio::time::timeout(Duration::from_secs(100_000), c).await.unwrap_or_else(|_| violation("N01/stuck", "a connection is never over".into())).is_err() {
            violation("panic", "in a peer".into());
        }
    }
    for _ in 0..3000 {
        if broken() || m(|m| m.peers.iter().all(|p| p.accepted)) {
            break;
        }
        tokio::time::sleep(ms(100)).await;
    }
    m(|m| m.done = true);
    let r = tokio::time::timeout(Duration::from_secs(200_000), acceptor).await;
    check!(matches!(r, Ok(Ok(()))), "N01/stuck", "the accepting side does not end: {}", if r.is_ok() { "panic" } else { "hangs" });
    for o in others {
        o.abort();
    }
    m(|m| {
        for (id, p) in m.peers.iter().enumerate() {
            if !m.broken {
                check!(p.connected && p.accepted, "N01/cannot_connect", "peer {id} connected: {}, accepted: {}", p.connected, p.accepted);
            }
        }
        if m.peers.iter().any(|p| p.got[0] + p.got[1] > 2) {
            nontrivial();
        }
    });
}
fn start() {
    set_hang_class("N01/hang");
    set_limits(3_000_000, None);
    random_schedule_config();
    net::random_cfg();
}
pub fn tcp() {
    start();
    let f = |n| choose(Stream::Fault, n);
    let bads = (0..f(4)).map(|_| (f(4), f(3000), f(30_000))).collect();
    let breaks = (0..f(3).saturating_sub(1)).map(|_| f(4000)).collect();
    let peers = 1 + w(4);
    let rt = runtime();
    let limit = Duration::from_secs(60);
    match w(2) {
        0 => rt.block_on(go(TcpTransportSocket::new(), peers, bads, breaks, limit, 0)),
        _ => rt.block_on(go(NoiseTcpTransport::new(NoiseEncryptionAdapter::gen_new, TcpTransportSocket::new()), peers, bads, breaks, limit, 0)),
    }
    drop(rt);
}
/// More silent peers than handshakes are made at a time: honest peers get their turn when the silent ones time out.
pub fn handshakes() {
    start();
    let f = |n| choose(Stream::Fault, n);
    let n = 90 + f(60);
    let bads = (0..n).map(|_| ([0, 0, 3][f(3) as usize], f(400), 1_000_000)).collect();
    let rt = runtime();
    rt.block_on(go(NoiseTcpTransport::new(NoiseEncryptionAdapter::gen_new, TcpTransportSocket::new()), 1 + w(2), bads, vec![], Duration::from_secs(100), LATE + 1000));
    drop(rt);
}
