//! R01: requests with all kinds of credentials over fresh and reused connections.
use crate::http::*;
use crate::server::*;
use crate::util::*;
use detsim::*;
use rpc::rpc_creds::RpcCreds;
use std::net::SocketAddr;

fn name(tricky: bool) -> String {
    let pool = ["user", "admin", "a", "", "__cookie__", "пользователь", "user name"];
    let p = ["password", "p", "", "pass:word", ":", "пароль", "Password", "password ", "passwordpasswordpasswordpasswordpasswordpasswordpasswordpasswordpassword"];
    if tricky { p[w(p.len() as u64) as usize].into() } else { pool[w(pool.len() as u64) as usize].into() }
}
/// An Authorization header list that does not carry the right credentials.
fn bad(user: &str, pass: &str) -> (Vec<String>, &'static str) {
    let cut = |s: &str| s.chars().take(s.chars().count().saturating_sub(1)).collect::<String>();
    let flip = |s: &str| s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>();
    // the same text with two characters changed by the same bit, so that sums and parities agree
    let two = |s: &str| {
        let mut b = s.as_bytes().to_vec();
        if b.is_ascii() && b.len() > 1 {
            let i = w(b.len() as u64) as usize;
            let j = (i + 1 + w(b.len() as u64 - 1) as usize) % b.len();
            b[i] ^= 1;
            b[j] ^= 1;
        }
        String::from_utf8(b).unwrap_or_default()
    };
    let one = |s: &str| {
        let mut b = s.as_bytes().to_vec();
        if b.is_ascii() && !b.is_empty() {
            let i = w(b.len() as u64) as usize;
            b[i] ^= 1 << w(3);
        }
        String::from_utf8(b).unwrap_or_default()
    };
    let swap = |s: &str| {
        let mut c: Vec<char> = s.chars().collect();
        if c.len() > 1 {
            let i = w(c.len() as u64 - 1) as usize;
            c.swap(i, i + 1);
        }
        c.into_iter().collect::<String>()
    };
    let (u, p, what) = match w(24) {
        0 | 1 => return (vec![], "none"),
        2 => (user.into(), cut(pass), "password without its end"),
        3 => (user.into(), format!("{pass}x"), "longer password"),
        4 => (cut(user), pass.into(), "user without its end"),
        5 => (format!("{user}x"), pass.into(), "longer user"),
        6 => (pass.into(), user.into(), "swapped"),
        7 => (flip(user), flip(pass), "other case"),
        8 => (user.into(), String::new(), "empty password"),
        9 => (String::new(), pass.into(), "empty user"),
        10 => (user.into(), format!("{pass}\0"), "password with a zero byte"),
        11 => return (vec![format!("Basic {}", b64(format!("{user}{pass}").as_bytes()))], "no colon"),
        12 => return (vec![format!("Bearer {}", b64(format!("{user}:{pass}x").as_bytes()))], "other scheme"),
        13 => return (vec![format!("Basic {}!", b64(format!("{user}:{pass}").as_bytes()))], "broken base64"),
        14 => return (vec![format!("Basic {}", b64(b"\xff\xfe:\xff"))], "not text"),
        15 => (two(user), pass.into(), "two characters of the user changed"),
        16 => (user.into(), two(pass), "two characters of the password changed"),
        17 => (one(user), pass.into(), "a character of the user changed"),
        18 => (user.into(), one(pass), "a character of the password changed"),
        19 => (swap(user), pass.into(), "two characters of the user exchanged"),
        20 => (user.into(), swap(pass), "two characters of the password exchanged"),
        21 => (format!("{user}{user}"), pass.into(), "doubled user"),
        22 => (String::new(), String::new(), "empty"),
        _ => (name(false), name(true), "other"),
    };
    (vec![basic(&u, &p)], what)
}
fn is_good(h: &[String], user: &str, pass: &str) -> bool {
    h.len() == 1 && h[0] == basic(user, pass)
}
struct Case {
    user: String,
    pass: String,
}
/// A refusal, or the connection was closed on a client still sending what will not be read.
fn refused(r: &Res<Response>) -> bool {
    matches!(r, Err(Fail::Closed)) || matches!(r, Ok(r) if r.status == 401 || r.status == 400)
}
fn client(addr: SocketAddr, c: &Case, id: u64, n: u64) {
    // the connection, and whether it has carried a refused request (the server may then close it)
    let mut conn = None;
    let mut spoiled = false;
    for k in 0..n {
        let tag = format!("c{id}.{k}");
        let (auth, what) = if wchance(1, 2) { (vec![basic(&c.user, &c.pass)], "right") } else { bad(&c.user, &c.pass) };
        let good = is_good(&auth, &c.user, &c.pass);
        count(if good { "requests_right" } else { "requests_wrong" }, 1);
        if conn.is_none() || wchance(1, 4) || (good && spoiled && wchance(1, 2)) {
            spoiled = false;
            conn = Some(Conn::duplex(addr).unwrap_or_else(|e| violation("R01/not_served", format!("cannot connect: {e:?}"))));
        }
        let cn = conn.as_mut().unwrap();
        let may_close = spoiled;
        spoiled |= !good;
        ev!("{tag} with {what}");
        match w(5) {
            // WebSocket
            0 => {
                let r = cn.upgrade(&auth);
                if !good {
                    check!(refused(&r), "R01/wrong_let_in", "a WebSocket request with {what} credentials got {r:?}");
                    // try to talk anyway
                    if wchance(1, 2) {
                        let _ = cn.ws_send(&call(&tag, "h_echo", &format!("[\"bad-{tag}\",1]")));
                        let _ = cn.ws_send(&call(&tag, "h_count", &format!("[\"bad-{tag}\",1]")));
                    }
                    conn = None;
                    continue;
                }
                if may_close && r == CLOSED {
                    conn = None;
                    continue;
                }
                check!(matches!(&r, Ok(r) if r.status == 101), "R01/not_served", "a WebSocket request with the right credentials got {r:?}");
                let q = if wchance(1, 2) { call(&tag, "h_echo", &format!("[\"good-{tag}\",1]")) } else { call(&tag, "h_subscribe_count", &format!("[\"good-{tag}\",2]")) };
                let q = if q.contains("subscribe") { q.replace("h_subscribe_count", "h_count") } else { q };
                let _ = cn.ws_send(&q);
                let a = cn.ws_recv();
                check!(matches!(&a, Ok(a) if a.contains("\"result\"")), "R01/not_served", "{q} over an authorised WebSocket got {a:?}");
                conn = None;
            }
            // two requests at once
            // (the HTTP library can stall on pipelined requests when its answers are not taken)
            1 if net::cfg().buffer >= 4096 => {
                let (auth2, what2) = if wchance(1, 2) { (vec![basic(&c.user, &c.pass)], "right") } else { bad(&c.user, &c.pass) };
                let good2 = is_good(&auth2, &c.user, &c.pass);
                let body = |g: bool, s: &str| call(&tag, "h_echo", &format!("[\"{}-{tag}{s}\",1]", if g { "good" } else { "bad" }));
                let (b1, b2) = (body(good, "a"), body(good2, "b"));
                if cn.send("POST", &auth, "", b1.as_bytes()).is_err() {
                    check!(!good || may_close, "R01/not_served", "the server closed the connection");
                    conn = None;
                    continue;
                }
                let sent2 = cn.send("POST", &auth2, "", b2.as_bytes()).is_ok();
                spoiled |= !good2;
                for (i, (g, wh)) in [(good, what), (good2, what2)].into_iter().enumerate() {
                    let r = cn.response();
                    if g {
                        check!(matches!(&r, Ok(r) if r.status == 200 && r.body.ends_with(b"}")) || ((may_close || (i == 1 && (!good || !sent2)) || !good2) && r == CLOSED), "R01/not_served", "pipelined request with the right credentials got {r:?}");
                    } else {
                        check!(refused(&r), "R01/wrong_let_in", "pipelined request with {wh} credentials got {r:?}");
                    }
                    if r.is_err() {
                        conn = None;
                        break;
                    }
                }
            }
            // other HTTP methods, or a batch
            k2 => {
                let g = if good { "good" } else { "bad" };
                let body = if k2 == 2 {
                    format!("[{},{}]", call(&tag, "h_echo", &format!("[\"{g}-{tag}a\",1]")), call(&tag, "h_slow", &format!("[\"{g}-{tag}b\",1]")))
                } else if k2 == 3 {
                    call(&tag, "list", "[]")
                } else {
                    call(&tag, "h_echo", &format!("[\"{g}-{tag}a\",1]"))
                };
                let r = cn.post(&auth, &body);
                if good && may_close && r == CLOSED {
                } else if good {
                    check!(matches!(&r, Ok(r) if r.status == 200 && String::from_utf8_lossy(&r.body).contains("\"result\"")), "R01/not_served", "a request with the right credentials got {r:?}");
                } else {
                    check!(refused(&r), "R01/wrong_let_in", "a request with {what} credentials got {r:?}");
                    check!(!matches!(&r, Ok(r) if String::from_utf8_lossy(&r.body).contains("\"result\"")), "R01/wrong_let_in", "a request with {what} credentials got {r:?}");
                }
                if !matches!(&r, Ok(r) if !r.headers.iter().any(|(k, v)| k == "connection" && v == "close")) {
                    conn = None;
                }
            }
        }
    }
}
const CLOSED: Res<Response> = Err(Fail::Closed);
impl PartialEq for Response {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
pub fn auth() {
    start("R01/hang");
    fsim::mkdir_all("/simfs/node");
    let cookie = wchance(1, 4);
    let creds = if cookie {
        RpcCreds::cookie_file("/simfs/node/.cookie".into()).unwrap_or_else(|e| violation("R01/not_served", format!("{e}")))
    } else {
        RpcCreds::basic(name(false), name(true)).unwrap_or_else(|e| violation("R01/not_served", format!("{e}")))
    };
    let case = Case { user: creds.username().into(), pass: creds.password().into() };
    ev!("{}:{}", case.user, case.pass);
    let clients: Vec<u64> = (0..1 + w(3)).map(|_| 1 + w(6)).collect();
    let case = std::sync::Arc::new(case);
    with_server(Some(creds), |addr, _| {
        clients
            .iter()
            .enumerate()
            .map(|(i, n)| {
                let (c, n) = (case.clone(), *n);
                std::thread::spawn(move || client(addr, &c, i as u64, n))
            })
            .collect()
    });
    log(|l| {
        for (t, n) in &l.ran {
            check!(t.starts_with("good"), "R01/wrong_let_in", "{t} was run");
            check!(*n == 1, "R03/run_twice", "{t} was run {n} times");
        }
    });
    nontrivial();
}
