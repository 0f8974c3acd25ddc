//! R03: calls, batches and subscriptions of several clients beside misbehaving ones.
use crate::http::*;
use crate::server::*;
use crate::util::*;
use detsim::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Duration;

#[derive(Clone, Debug)]
struct Call {
    id: Value,
    tag: String,
    req: Value,
    /// the answer
    want: Want,
    runs: u64,
}
#[derive(Clone, Debug)]
enum Want {
    Result(Value),
    Error(i64, String),
}
fn gen_id(tag: &str, k: u64) -> Value {
    match w(4) {
        0 => json!(k),
        1 => json!(u64::MAX - k),
        2 => json!(format!("id \"{tag}\"")),
        _ => json!(tag),
    }
}
fn gen_call(tag: &str, k: u64) -> Call {
    let id = gen_id(tag, k);
    let n = [0, 1, u64::MAX, 77][w(4) as usize];
    let (method, params, want, runs) = match w(9) {
        0 | 1 => ("h_echo", json!([tag, n]), Want::Result(json!(format!("{tag}/{n}"))), 1),
        2 => ("h_echo", json!({"tag": tag, "n": n}), Want::Result(json!(format!("{tag}/{n}"))), 1),
        3 | 4 => ("h_slow", json!([tag, w(500)]), Want::Result(json!(tag)), 1),
        5 => ("h_fail", json!([tag]), Want::Error(0, tag.into()), 1),
        6 => ("h_none", json!([tag]), Want::Error(-32601, String::new()), 0),
        7 => ("h_echo", json!([tag]), Want::Error(-32602, String::new()), 0),
        _ => ("h_echo", json!([tag, "1"]), Want::Error(-32602, String::new()), 0),
    };
    Call { id: id.clone(), tag: tag.into(), req: json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}), want, runs }
}
fn check_answer(c: &Call, a: &Value, how: &str) {
    check!(a["id"] == c.id, "R03/wrong_answer", "{how}: {} is answered with the id of another request: {a}", c.req);
    check!(a["jsonrpc"] == "2.0", "R03/wrong_answer", "{how}: {a}");
    match &c.want {
        Want::Result(v) => check!(a.get("error").is_none() && a["result"] == *v, "R03/wrong_answer", "{how}: {} is answered with {a}", c.req),
        Want::Error(code, text) => {
            let e = &a["error"];
            check!(a.get("result").is_none() && e.is_object(), "R03/wrong_answer", "{how}: {} is answered with {a}", c.req);
            check!(*code == 0 || e["code"] == *code, "R03/wrong_answer", "{how}: {} is answered with {a}", c.req);
            check!(e["message"].as_str().is_some_and(|m| m.contains(text.as_str())), "R03/wrong_answer", "{how}: {} is answered with {a}", c.req);
        }
    }
    count("answers", 1);
    // an answered call was run, once
    let n = log(|l| l.ran.get(&c.tag).copied().unwrap_or(0));
    check!(n == c.runs, "R03/run_twice", "{how}: {} was run {n} times when it was answered", c.req);
}
fn parse(b: &[u8], how: &str) -> Value {
    serde_json::from_slice(b).unwrap_or_else(|e| violation("R03/wrong_answer", format!("{how}: not JSON ({e}): {:?}", String::from_utf8_lossy(b))))
}
fn stopping() -> bool {
    log(|l| l.stop)
}
/// The other side is gone: only allowed once a stop was requested.
fn gone(r: &Fail, what: &str) {
    check!(stopping(), "R03/no_answer", "{what}: {r:?}");
}
fn check_batch(calls: &[Call], notes: u64, body: &[u8], how: &str) {
    if calls.is_empty() && notes > 0 {
        return; // nothing to answer
    }
    let v = parse(body, how);
    let a = v.as_array().unwrap_or_else(|| violation("R03/wrong_answer", format!("{how}: a batch is answered with {v}")));
    check!(a.len() == calls.len(), "R03/wrong_answer", "{how}: {} calls of a batch have {} answers: {v}", calls.len(), a.len());
    for c in calls {
        let m: Vec<&Value> = a.iter().filter(|x| x["id"] == c.id).collect();
        check!(m.len() == 1, "R03/wrong_answer", "{how}: call {} of a batch has {} answers: {v}", c.req, m.len());
        check_answer(c, m[0], how);
    }
}
fn gen_batch(tag: &str, k: u64) -> (Vec<Call>, u64, Value) {
    let mut calls = vec![];
    let mut items = vec![];
    let mut notes = 0;
    for i in 0..1 + w(5) {
        let t = format!("{tag}b{i}");
        let mut c = gen_call(&t, 1000 * k + i);
        if wchance(1, 8) {
            items.push(json!({"jsonrpc": "2.0", "method": "h_echo", "params": [format!("note-{t}"), 1]}));
            notes += 1;
        } else {
            c.id = json!(t);
            c.req["id"] = c.id.clone();
            items.push(c.req.clone());
            calls.push(c);
        }
    }
    (calls, notes, Value::Array(items))
}
fn http_client(addr: SocketAddr, id: u64, n: u64) {
    let mut conn = None;
    let mut k = 0;
    while k < n {
        k += 1;
        let tag = format!("h{id}.{k}");
        if conn.is_none() {
            match Conn::duplex(addr) {
                Ok(c) => conn = Some(c),
                Err(e) => return gone(&e, "cannot connect"),
            }
        }
        let cn = conn.as_mut().unwrap();
        match w(6) {
            0 | 1 => {
                let c = gen_call(&tag, k);
                match cn.post(&[], &c.req.to_string()) {
                    Ok(r) => check_answer(&c, &parse(&r.body, "HTTP"), "HTTP"),
                    Err(e) => return gone(&e, &format!("HTTP request {}", c.req)),
                }
            }
            2 => {
                let (calls, notes, b) = gen_batch(&tag, k);
                match cn.post(&[], &b.to_string()) {
                    Ok(r) => check_batch(&calls, notes, &r.body, "HTTP batch"),
                    Err(e) => return gone(&e, &format!("HTTP batch {b}")),
                }
            }
            3 if net::cfg().buffer >= 4096 => {
                let calls: Vec<Call> = (0..2 + w(3)).map(|i| gen_call(&format!("{tag}p{i}"), 100 * k + i)).collect();
                for c in &calls {
                    if let Err(e) = cn.send("POST", &[], "", c.req.to_string().as_bytes()) {
                        return gone(&e, "pipelined HTTP");
                    }
                }
                for c in &calls {
                    match cn.response() {
                        Ok(r) => check_answer(c, &parse(&r.body, "pipelined HTTP"), "pipelined HTTP"),
                        Err(e) => return gone(&e, &format!("pipelined HTTP {}", c.req)),
                    }
                }
            }
            4 => {
                let b = ["{\"jsonrpc\":\"2.0\",\"id\":1,\"meth", "[]", "17", "{}", "{\"jsonrpc\":\"1.0\",\"id\":1,\"method\":\"h_echo\",\"params\":[\"malformed\",1]}", "nonsense"][w(6) as usize];
                match cn.post(&[], b) {
                    Ok(r) => {
                        let s = String::from_utf8_lossy(&r.body).into_owned();
                        check!(r.status != 200 || s.contains("\"error\""), "R03/wrong_answer", "malformed input {b} is answered with {s}");
                        count("malformed", 1);
                        if r.status != 200 || r.headers.iter().any(|(k, v)| k == "connection" && v == "close") {
                            conn = None;
                        }
                    }
                    // (refused before it was read to its end)
                    Err(Fail::Closed) => conn = None,
                    Err(e) => return gone(&e, &format!("malformed input {b}")),
                }
            }
            _ => {
                let r = cn.post(&[], &call(&tag, "list", "[]"));
                match r {
                    Ok(r) => {
                        let mut v = parse(&r.body, "HTTP");
                        let mut names = ["list", "h_echo", "h_slow", "h_fail", "h_events", "h_evens", "h_count", "h_unsub_events", "h_unsub_evens", "h_unsub_count"];
                        names.sort();
                        check!(v["result"].take() == json!(names), "R03/wrong_answer", "the list of methods is answered with {}", String::from_utf8_lossy(&r.body));
                    }
                    Err(e) => return gone(&e, "HTTP request"),
                }
            }
        }
        if wchance(1, 5) {
            conn = None;
        }
        if wchance(1, 4) {
            sleep(w(100));
        }
    }
}
struct Sub {
    kind: u64,
    /// last event seen
    last: Option<u64>,
    /// no event after this one may be missed
    from: u64,
    want: u64,
    got: u64,
    left: bool,
}
fn ws_client(addr: SocketAddr, id: u64, n: u64, slow: bool, waiting: &AtomicU64) {
    let mut cn = match Conn::duplex(addr) {
        Ok(c) => c,
        Err(e) => return gone(&e, "cannot connect"),
    };
    match cn.upgrade(&[]) {
        Ok(r) => check!(r.status == 101, "R03/no_answer", "WebSocket upgrade: {r:?}"),
        Err(e) => return gone(&e, "WebSocket upgrade"),
    }
    let cap = 5;
    let mut open: BTreeMap<String, Call> = BTreeMap::new();
    let mut subs_asked: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut subs: BTreeMap<String, Sub> = BTreeMap::new();
    let mut early: Vec<Value> = vec![];
    let mut sent = 0;
    let mut batches: Vec<(Vec<Call>, u64)> = vec![];
    loop {
        while sent < n && open.len() + batches.len() + subs_asked.len() < cap {
            sent += 1;
            let tag = format!("w{id}.{sent}");
            let m = match w(8) {
                0..=3 => {
                    let mut c = gen_call(&tag, sent);
                    if open.contains_key(&c.id.to_string()) {
                        c.id = json!(tag);
                        c.req["id"] = json!(tag);
                    }
                    let m = c.req.to_string();
                    open.insert(c.id.to_string(), c);
                    m
                }
                4 if batches.is_empty() => {
                    let (calls, notes, b) = gen_batch(&tag, sent);
                    if !calls.is_empty() {
                        batches.push((calls, notes));
                    }
                    b.to_string()
                }
                k => {
                    let want = 1 + w(12);
                    let (kind, name, p) = match k {
                        5 => (0, "h_events", json!([tag])),
                        6 => (1, "h_evens", json!([tag])),
                        _ => (2, "h_count", json!([tag, want])),
                    };
                    let m = json!({"jsonrpc": "2.0", "id": tag, "method": name, "params": p}).to_string();
                    subs_asked.insert(json!(tag).to_string(), (kind, want, tag));
                    waiting.fetch_add(1, SeqCst);
                    m
                }
            };
            if let Err(e) = cn.ws_send(&m) {
                return gone(&e, "WebSocket request");
            }
            if wchance(1, 6) && pings() {
                let _ = cn.ws_frame(9, true, b"hello");
            }
        }
        if open.is_empty() && batches.is_empty() && subs_asked.is_empty() && subs.values().all(|s| s.got >= s.want) && sent >= n {
            break;
        }
        if slow && wchance(1, 3) {
            sleep(w(2000));
        }
        let t = match cn.ws_recv() {
            Ok(t) => t,
            Err(e) => return gone(&e, &format!("WebSocket: {} calls, {} batches, {} subscriptions open", open.len(), batches.len(), subs.len() + subs_asked.len())),
        };
        let v = parse(t.as_bytes(), "WebSocket");
        let mut todo = vec![v];
        while let Some(v) = todo.pop() {
            if v.is_array() {
                check!(!batches.is_empty(), "R03/wrong_answer", "an answer to no batch: {v}");
                let (calls, notes) = batches.remove(0);
                check_batch(&calls, notes, t.as_bytes(), "WebSocket batch");
            } else if v.get("method").is_some() {
                let sid = v["params"]["subscription"].to_string();
                let Some(s) = subs.get_mut(&sid) else {
                    // the first events can overtake the answer to the subscription
                    check!(!subs_asked.is_empty(), "R03/subscription", "an event of no subscription: {v}");
                    early.push(v);
                    continue;
                };
                let name = ["h_events", "h_evens", "h_count"][s.kind as usize];
                check!(v["method"] == name, "R03/subscription", "an event of {name} is named {}", v["method"]);
                if s.left && v["params"].get("error").is_some() {
                    continue; // the pump notices that it has no subscriber any more
                }
                let x = v["params"]["result"].as_u64().unwrap_or_else(|| violation("R03/subscription", format!("event {v}")));
                let next = match (s.kind, s.last) {
                    (2, l) => x == l.unwrap_or(0) + 1 && x <= s.want,
                    (0, Some(l)) => x == l + 1,
                    (0, None) => x >= 1 && x <= s.from + 1,
                    (_, Some(l)) => x == l + 20,
                    (_, None) => x % 20 == 0 && x / 10 >= 1 && x / 10 <= s.from + 2,
                };
                check!(next, "R03/subscription", "{name}: event {x} after {:?} (at the time of the answer, {} had been sent)", s.last, s.from);
                s.last = Some(x);
                s.got += 1;
                count("events", 1);
                if s.got == s.want {
                    waiting.fetch_sub(1, SeqCst);
                    if s.kind < 2 && wchance(1, 2) {
                        s.left = true;
                        let c = Call {
                            id: json!(format!("u{sid}")),
                            tag: "unsubscribe".into(),
                            req: json!({"jsonrpc": "2.0", "id": format!("u{sid}"), "method": (["h_unsub_events", "h_unsub_evens"][s.kind as usize]), "params": [v["params"]["subscription"]]}),
                            want: Want::Result(json!(true)),
                            runs: 0,
                        };
                        if let Err(e) = cn.ws_send(&c.req.to_string()) {
                            return gone(&e, "unsubscribing");
                        }
                        open.insert(c.id.to_string(), c);
                    }
                }
            } else if let Some(c) = open.remove(&v["id"].to_string()) {
                check_answer(&c, &v, "WebSocket");
            } else if let Some((kind, want, tag)) = subs_asked.remove(&v["id"].to_string()) {
                check!(v.get("error").is_none() && !v["result"].is_null(), "R03/subscription", "subscribing is answered with {v}");
                let from = log(|l| {
                    *l.ran.entry("subscriptions".into()).or_default() += 1;
                    l.emitted
                });
                let sid = v["result"].to_string();
                let n = log(|l| l.ran.get(&tag).copied().unwrap_or(0));
                check!(n == 1, "R03/run_twice", "subscription {tag} was run {n} times");
                check!(subs.insert(sid, Sub { kind, want, last: None, from, got: 0, left: false }).is_none(), "R03/subscription", "two subscriptions have one identifier: {v}");
                todo.extend(early.drain(..).rev());
            } else {
                check_failed("R03/wrong_answer", format!("an answer to nothing that was asked: {v}"));
            }
        }
    }
    check!(early.is_empty(), "R03/subscription", "events of no subscription: {early:?}");
    match w(3) {
        0 => drop(cn),
        1 => {
            let _ = cn.ws_frame(8, true, &[3, 232]);
            let _ = cn.ws_recv();
        }
        _ => reset(&cn),
    }
}
fn reset(cn: &Conn) {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(cn.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as u32) };
}
/// jsonrpsee 0.26 never stops when the stop request meets the unfinished answer to a ping: the
/// abandoned receiving half keeps the lock that the sending half needs to close the connection.
fn pings() -> bool {
    net::cfg().buffer >= 4096 && !log(|l| l.early)
}
/// Does everything wrong on its own connections.
fn bad_client(addr: SocketAddr, id: u64, n: u64) {
    for k in 0..n {
        let Ok(mut cn) = Conn::open(addr) else { return };
        let _ = cn.s.set_read_timeout(Some(Duration::from_secs(1 + w(20))));
        count("fault.bad_connection", 1);
        let tag = format!("bad{id}.{k}");
        let body = call(&tag, "h_slow", &format!("[\"{tag}\",{}]", w(3000)));
        match w(9) {
            0 => {
                let mut b: Vec<u8> = (0..1 + w(200)).map(|_| w(256) as u8).collect();
                if wchance(1, 2) {
                    b.extend(b"\r\n\r\n");
                }
                let _ = cn.raw(&b);
                let _ = (&*cn.s).read(&mut [0; 100]);
            }
            1 => {
                // part of a request
                let m = format!("POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{body}", body.len());
                let cut = w(m.len() as u64) as usize;
                let _ = cn.raw(&m.as_bytes()[..cut]);
                if wchance(1, 2) {
                    sleep(w(5000));
                }
            }
            2 => {
                let _ = cn.send("POST", &[], "", body.as_bytes()); // leaves before the answer
            }
            3 => {
                // never reads
                for _ in 0..20 {
                    let _ = cn.s.set_nonblocking(true);
                    let _ = cn.send("POST", &[], "", call(&tag, "list", "[]").as_bytes());
                }
                sleep(w(10_000));
            }
            4 => {
                if cn.upgrade(&[]).is_ok() {
                    let op = w(16) as u8;
                    let _ = cn.ws_frame(if op == 9 { 10 } else { op }, wchance(1, 2), &vec![0xff; w(200) as usize]);
                    let _ = cn.raw(&[0xff; 30]);
                    let _ = (&*cn.s).read(&mut [0; 100]);
                }
            }
            5 | 6 => {
                // subscribes and does not read, or leaves
                if cn.upgrade(&[]).is_ok() {
                    let _ = cn.ws_send(&call("s", "h_events", &format!("[\"{tag}\"]")));
                    let _ = cn.ws_send(&body);
                    sleep(w(10_000));
                }
            }
            7 => {
                let _ = cn.raw(b"POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 99999999999\r\n\r\n{");
                let _ = (&*cn.s).read(&mut [0; 100]);
            }
            _ => {
                let _ = cn.raw(format!("GET / HTTP/1.1\r\nHost: {}\r\n", "x".repeat(w(3000) as usize)).as_bytes());
                let _ = (&*cn.s).flush();
            }
        }
        if wchance(1, 2) {
            reset(&cn);
        }
    }
}
/// The client library of this repository.
fn lib_client(addr: SocketAddr, id: u64, n: u64, ws: bool) {
    use jsonrpsee::core::client::{ClientT, SubscriptionClientT};
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        macro_rules! talk {
            ($c:expr) => {
                for k in 0..n {
                    let tag = format!("l{id}.{k}");
                    let mut p = jsonrpsee::core::params::ArrayParams::new();
                    p.insert(&tag).unwrap();
                    p.insert(5u64).unwrap();
                    let r: Result<String, _> = $c.request("h_echo", p).await;
                    match r {
                        Ok(s) => check!(s == format!("{tag}/5"), "R03/wrong_answer", "client library: {tag} is answered with {s}"),
                        // (a client library that waits for a slow network may give up)
                        Err(e) => {
                            check!(stopping() || format!("{e:?}").contains("Timeout"), "R03/no_answer", "client library: {tag}: {e:?}");
                            return;
                        }
                    }
                    count("answers_lib", 1);
                }
            };
        }
        if ws {
            match rpc::new_ws_client(format!("ws://{addr}"), rpc::RpcAuthData::None).await {
                Ok(c) => {
                    talk!(c);
                    let mut p = jsonrpsee::core::params::ArrayParams::new();
                    p.insert(format!("l{id}.s")).unwrap();
                    p.insert(3u64).unwrap();
                    match c.subscribe::<u64, _>("h_count", p, "h_unsub_count").await {
                        Ok(mut s) => {
                            for i in 1..=3u64 {
                                match s.next().await {
                                    Some(Ok(x)) => check!(x == i, "R03/subscription", "client library: event {x} in place of {i}"),
                                    x => {
                                        check!(stopping(), "R03/subscription", "client library: event {i} is {x:?}");
                                        return;
                                    }
                                }
                            }
                        }
                        Err(e) => check!(stopping() || format!("{e:?}").contains("Timeout"), "R03/no_answer", "client library: subscribing: {e:?}"),
                    }
                }
                Err(e) => check!(stopping() || format!("{e:?}").to_lowercase().contains("timeout"), "R03/no_answer", "client library: cannot connect: {e:?}"),
            }
        } else {
            let c = rpc::new_http_client(format!("http://{addr}"), rpc::RpcAuthData::None).unwrap_or_else(|e| violation("R03/no_answer", format!("{e}")));
            talk!(c);
        }
    });
}
pub fn calls() {
    start("R03/hang");
    let early = chance(Stream::Fault, 1, 4).then(|| choose(Stream::Fault, 3000));
    log(|l| l.early = early.is_some());
    let n_good = 1 + w(3);
    let n_bad = w(3);
    run_server(None, early, |addr, ev| {
        let waiting = Arc::new(AtomicU64::new(0));
        let live = Arc::new(AtomicU64::new(0));
        let mut hs: Vec<_> = (0..n_good)
            .map(|i| {
                let n = 1 + w(8);
                let kind = w(8);
                let wt = waiting.clone();
                live.fetch_add(1, SeqCst);
                let live = live.clone();
                std::thread::spawn(move || {
                    match kind {
                        0..=2 => http_client(addr, i, n),
                        3 => ws_client(addr, i, n, true, &wt),
                        6 => lib_client(addr, i, n, false),
                        7 => lib_client(addr, i, n, true),
                        _ => ws_client(addr, i, n, false, &wt),
                    }
                    live.fetch_sub(1, SeqCst);
                })
            })
            .collect();
        hs.extend((0..n_bad).map(|i| {
            let n = 1 + w(4);
            std::thread::spawn(move || bad_client(addr, i, n))
        }));
        let gap = 1 + w(200);
        // events, as long as somebody still waits for some
        hs.push(std::thread::spawn(move || {
            let mut x = 0;
            while live.load(SeqCst) > 0 && x < 3000 && !stopping() {
                x += 1;
                {
                    let mut b = ev.lock().unwrap();
                    b.broadcast(&x);
                    log(|l| l.emitted = x);
                }
                let busy = waiting.load(SeqCst) > 0;
                sleep(if busy { gap * (1 + x / 100) * (1 + x / 100) } else { 5_000 });
            }
        }));
        hs
    });
    log(|l| {
        for (t, n) in &l.ran {
            check!(*n <= 1 || t == "subscriptions" || t.starts_with("bad"), "R03/run_twice", "{t} was run {n} times");
        }
    });
    nontrivial();
}

/// Many events at once for subscribers that read late, beside others that want ordinary answers.
pub fn burst() {
    start("R03/hang");
    let n = if net::cfg().buffer < 4096 { 1030 + w(300) } else { 1030 + w(2000) };
    let n_subs = 1 + w(2);
    run_server(None, None, |addr, ev| {
        let ready = Arc::new(AtomicU64::new(0));
        let mut hs: Vec<_> = (0..n_subs)
            .map(|i| {
                let kind = w(3);
                let (late, pause) = (w(4) * w(2000), w(3));
                let ready = ready.clone();
                std::thread::spawn(move || {
                    let name = ["h_events", "h_evens", "h_count"][kind as usize];
                    let tag = format!("b{i}");
                    let params = if kind == 2 { json!([tag, n]) } else { json!([tag]) };
                    let how = format!("{name} to a late reader");
                    let mut cn = Conn::duplex(addr).unwrap_or_else(|e| violation("R03/no_answer", format!("cannot connect: {e:?}")));
                    if let Err(e) = cn.upgrade(&[]) {
                        violation("R03/no_answer", format!("WebSocket upgrade: {e:?}"));
                    }
                    let m = json!({"jsonrpc": "2.0", "id": tag, "method": name, "params": params});
                    if let Err(e) = cn.ws_send(&m.to_string()) {
                        violation("R03/no_answer", format!("subscribing: {e:?}"));
                    }
                    let mut answered = false;
                    let mut got = 0;
                    let want = if kind == 1 { n / 2 } else { n };
                    while !answered || got < want {
                        let t = cn.ws_recv().unwrap_or_else(|e| violation("R03/no_answer", format!("{how}: after {got} of {want} events: {e:?}")));
                        let v = parse(t.as_bytes(), &how);
                        if v["id"] == json!(tag) {
                            answered = true;
                            ready.fetch_add(1, SeqCst);
                            sleep(late);
                            continue;
                        }
                        let x = v["params"]["result"].as_u64().unwrap_or_else(|| violation("R03/subscription", format!("{how}: {v}")));
                        got += 1;
                        let next = if kind == 1 { got * 20 } else { got };
                        check!(x == next, "R03/subscription", "{how}: event {x} in place of {next} (of {want})");
                        if pause > 0 && got % 100 == 0 {
                            sleep(pause * 50);
                        }
                    }
                    count("burst_events", got);
                })
            })
            .collect();
        hs.push(std::thread::spawn(move || http_client(addr, 9, 2)));
        let chunk = [n, 100, 1100][w(3) as usize];
        hs.push(std::thread::spawn(move || {
            while ready.load(SeqCst) < n_subs {
                sleep(10);
            }
            for x in 1..=n {
                ev.lock().unwrap().broadcast(&x);
                if x % chunk == 0 {
                    sleep(20);
                }
            }
        }));
        hs
    });
    nontrivial();
}
