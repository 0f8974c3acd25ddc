//! R02: successive node runs using one cookie file, killed or failing at any file operation, while
//! others read it.
use crate::http::*;
use crate::server::*;
use crate::util::*;
use detsim::*;
use rpc::rpc_creds::RpcCreds;
use std::path::Path;
use std::sync::mpsc;
use std::time::Duration;

#[derive(Default)]
struct State {
    /// credentials of runs that got past their start
    known: Vec<String>,
    /// a server is running (number of the run, 0: none)
    running: u64,
    /// contents seen by others
    seen: Vec<(String, &'static str)>,
    start_failed: bool,
    forgotten: u64,
}
static ST: SimCell<Option<State>> = SimCell::new(None);
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    ST.with(|l| f(l.get_or_insert_with(Default::default)))
}
#[derive(Clone)]
struct Plan {
    path: String,
    option: Option<String>,
    doom: Option<u64>,
    fail: u64,
    kill: bool,
    serve: bool,
    probes: u64,
}
fn text(path: &str) -> Option<String> {
    fsim::get(path).map(|n| String::from_utf8_lossy(&n.data).into_owned())
}
fn probe(addr: std::net::SocketAddr, pl: &Plan, old: &[String]) {
    for k in 0..pl.probes {
        let of_file = w(3) > 0;
        let c = if of_file {
            match utils::cookie::load_cookie(&pl.path) {
                Ok((u, p)) => format!("{u}:{p}"),
                Err(e) => violation("R02/not_there", format!("a server runs, but reading its cookie fails: {e}")),
            }
        } else if let Some(o) = (!old.is_empty()).then(|| old[w(old.len() as u64) as usize].clone()) {
            o
        } else {
            continue;
        };
        let (u, p) = c.split_once(':').unwrap();
        let r = Conn::open(addr).and_then(|mut cn| cn.post(&[basic(u, p)], &call("q", "h_echo", &format!("[\"{k}\",1]"))));
        if of_file {
            check!(matches!(&r, Ok(r) if r.status == 200), "R02/not_accepted", "the cookie in the file is answered with {r:?}");
            count("accepted", 1);
        } else {
            check!(matches!(&r, Err(Fail::Closed)) || matches!(&r, Ok(r) if r.status == 401), "R02/old_accepted", "the cookie of an earlier run is answered with {r:?}");
            count("old_refused", 1);
        }
    }
}
/// One run of a node.
fn life(n: u64, pl: &Plan) {
    if pl.fail > 0 {
        fsim::fail_thread(pl.fail);
    }
    fsim::doom_thread(pl.doom);
    let f0 = fsim::failed_ops();
    let old = st(|s| s.known.clone());
    let r = RpcCreds::new("/simfs/node", None::<&str>, None::<&str>, pl.option.as_deref());
    let failed = fsim::failed_ops() - f0;
    let creds = match r {
        Ok(c) => c,
        Err(e) => {
            ev!("run {n} does not start: {e}");
            count("starts_failed", 1);
            check!(failed > 0, "R02/start_fails", "start-up failed although no file operation did: {e}");
            st(|s| s.start_failed = true);
            return;
        }
    };
    let c = format!("{}:{}", creds.username(), creds.password());
    ev!("run {n} started with {c}");
    st(|s| s.known.push(c.clone()));
    let node = fsim::get(&pl.path);
    match &node {
        Some(f) => {
            check!(f.data == c.as_bytes(), "R02/not_the_credentials", "started with {c} but the file has {:?}", String::from_utf8_lossy(&f.data));
            check!(f.mode & 0o077 == 0, "R02/readable_by_others", "the cookie file has mode {:o}", f.mode);
        }
        None => check_failed("R02/not_there", "started without writing the cookie file".into()),
    }
    st(|s| s.running = n);
    let f1 = fsim::failed_ops();
    if pl.serve {
        let rt = runtime();
        let ev: Events = std::sync::Arc::new(std::sync::Mutex::new(utils_networking::broadcaster::Broadcaster::new()));
        let any: std::net::SocketAddr = "127.0.0.1:0".parse().unwrap();
        let server = rt.block_on(builder(any, Some(creds), &ev).build()).unwrap_or_else(|e| violation("R03/start_failed", format!("{e}")));
        let addr = *server.http_address();
        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
        let p = pl.clone();
        // A request that is still worked on when the end comes.
        let last = (!pl.kill && wchance(1, 2)).then(|| (w(400), w(40)));
        let mine = c.clone();
        let h = std::thread::spawn(move || {
            probe(addr, &p, &old);
            let Some((ms, wait)) = last else {
                let _ = tx.send(());
                return;
            };
            log(|l| l.cookie = Some((p.path.clone(), mine.clone())));
            let (u, pw) = mine.split_once(':').unwrap();
            let tag = format!("last{n}");
            let cn = Conn::open(addr).and_then(|mut cn| {
                cn.send("POST", &[basic(u, pw)], "", call("q", "h_slow", &format!("[\"{tag}\",{ms}]")).as_bytes())?;
                Ok(cn)
            });
            // Only a request whose work has begun has to be finished.
            for _ in 0..1000 {
                if log(|l| l.ran.contains_key(&tag)) {
                    break;
                }
                sleep(1 + wait);
            }
            let _ = tx.send(());
            if let Ok(mut cn) = cn {
                let _ = cn.response();
            }
        });
        rt.block_on(async {
            let _ = rx.await;
            st(|s| s.running = 0);
            if pl.kill {
                st(|s| s.forgotten += 1);
                std::mem::forget(server);
            } else {
                server.shutdown().await
            }
        });
        join(h);
        drop(rt);
        log(|l| l.cookie = None);
    } else {
        for _ in 0..pl.probes {
            sleep(w(50));
            check!(text(&pl.path).as_deref() == Some(&c), "R02/not_the_credentials", "running with {c} but the file has {:?}", text(&pl.path));
        }
        st(|s| s.running = 0);
        if pl.kill { std::mem::forget(creds) } else { drop(creds) }
    }
    if pl.kill {
        count("fault.killed_while_running", 1);
    } else if fsim::failed_ops() == f1 {
        check!(fsim::get(&pl.path).is_none(), "R02/not_removed", "the run ended but its cookie file is still there: {:?}", text(&pl.path));
        count("removed", 1);
    }
}
fn observe(path: &str, n: u64) {
    for _ in 0..n {
        if wchance(1, 2) {
            sleep(w(30));
        }
        let r0 = st(|s| s.running);
        let r = utils::cookie::load_cookie(Path::new(path));
        let r1 = st(|s| s.running);
        count("observations", 1);
        match r {
            Ok((u, p)) => st(|s| s.seen.push((format!("{u}:{p}"), "load_cookie"))),
            Err(utils::cookie::LoadCookieError::Format { .. }) => {
                check_failed("R02/partial", format!("a reader finds no complete cookie in the file: {:?}", text(path)));
            }
            Err(e) => check!(r0 == 0 || r0 != r1, "R02/not_there", "a server runs, but reading its cookie fails: {e}"),
        }
        if let Some(t) = text(path) {
            st(|s| s.seen.push((t, "file")));
        }
    }
}
fn well_formed(c: &str) -> bool {
    c.strip_prefix("__cookie__:").is_some_and(|p| p.len() == 32 && p.bytes().all(|b| b.is_ascii_alphanumeric()))
}
pub fn cookie() {
    start("R02/hang");
    fsim::mkdir_all("/simfs/node");
    let (option, path) = match w(3) {
        0 => (None, "/simfs/node/.cookie".to_string()),
        k => {
            let p = ["/simfs/node/rpc.cookie", "/simfs/node/auth.tmp"][k as usize - 1].to_string();
            (Some(p.clone()), p)
        }
    };
    // what earlier versions and killed runs left behind
    let stale = "__cookie__:0000000000000000111111111111ABCD".to_string();
    if wchance(1, 2) {
        fsim::put(&path, stale.as_bytes(), [0o600, 0o644][w(2) as usize]);
    }
    let tmp2 = Path::new(&path).with_extension("tmp").to_string_lossy().into_owned();
    for t in [format!("{path}.tmp"), tmp2] {
        if t != path && wchance(1, 2) {
            let l = ["__coo".to_string(), format!("__cookie__:{}", "z".repeat(60)), stale.clone()];
            fsim::put(&t, l[w(3) as usize].as_bytes(), [0o600, 0o644][w(2) as usize]);
        }
    }
    let n_lives = 1 + w(4);
    let plans: Vec<Plan> = (0..n_lives)
        .map(|_| Plan {
            path: path.clone(),
            option: option.clone(),
            doom: chance(Stream::Fault, 1, 3).then(|| choose(Stream::Fault, 7)),
            fail: if chance(Stream::Fault, 1, 4) { 300 } else { 0 },
            kill: chance(Stream::Fault, 1, 3),
            serve: wchance(1, 3),
            probes: 1 + w(3),
        })
        .collect();
    let obs: Vec<_> = (0..w(3))
        .map(|_| {
            let (p, n) = (path.clone(), 3 + w(20));
            std::thread::spawn(move || observe(&p, n))
        })
        .collect();
    for (i, pl) in plans.into_iter().enumerate() {
        let (tx, rx) = mpsc::channel::<()>();
        let h = std::thread::spawn(move || {
            life(i as u64 + 1, &pl);
            let _ = tx.send(());
        });
        match rx.recv_timeout(Duration::from_secs(100_000)) {
            Ok(()) => join(h),
            Err(mpsc::RecvTimeoutError::Disconnected) => join(h),
            Err(mpsc::RecvTimeoutError::Timeout) => st(|s| s.forgotten += 1), // killed
        }
        if let Some(t) = text(&path) {
            st(|s| s.seen.push((t, "file after a run")));
        }
    }
    for h in obs {
        join(h);
    }
    st(|s| {
        for (t, how) in &s.seen {
            if *t == stale || s.known.contains(t) {
                continue;
            }
            check!(well_formed(t), "R02/partial", "{how}: the cookie file held {t:?}");
            for k in s.known.iter().chain([&stale]) {
                let same = t[11..].bytes().zip(k[11..].bytes()).filter(|(a, b)| a == b).count();
                check!(same < 8, "R02/partial", "{how}: the cookie file held {t:?}, parts of which are {k:?}");
            }
            check!(s.forgotten > 0 || s.start_failed, "R02/not_the_credentials", "{how}: the cookie file held {t:?}, which no run uses");
        }
    });
    nontrivial();
}
