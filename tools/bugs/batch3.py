BUGS=[]
RPC={'rpc':'{ path = "@REPO@/rpc", features = ["test-support"] }','tokio':'{ version = "1", features = ["full"] }','utils-networking':'{ path = "@REPO@/utils/networking" }','hyper':'"1"','http':'"1"','base64':'"0.22"'}
COMMON='''
use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::Duration;
fn b64(s: &str) -> String { use base64::Engine; base64::engine::general_purpose::STANDARD.encode(s) }
#[allow(dead_code)]
fn post(s: &mut TcpStream, auth: Option<&str>, body: &str) -> (u16, String) {
    s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    let a = auth.map(|a| format!("Authorization: {a}\\r\\n")).unwrap_or_default();
    s.write_all(format!("POST / HTTP/1.1\\r\\nHost: x\\r\\n{a}Content-Type: application/json\\r\\nContent-Length: {}\\r\\n\\r\\n{body}", body.len()).as_bytes()).unwrap();
    let mut buf = vec![]; let mut b = [0u8; 4096];
    loop {
        let n = s.read(&mut b).unwrap_or(0);
        if n == 0 { break; }
        buf.extend_from_slice(&b[..n]);
        let t = String::from_utf8_lossy(&buf).to_string();
        if let Some((h, rest)) = t.split_once("\\r\\n\\r\\n") {
            let len = h.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length: ").map(|x| x.trim().parse::<usize>().unwrap())).unwrap_or(0);
            if rest.len() >= len { return (h.split(' ').nth(1).unwrap().parse().unwrap(), rest.to_string()); }
        }
    }
    (0, String::from_utf8_lossy(&buf).to_string())
}
#[allow(dead_code)]
const CALL: &str = r#"{"jsonrpc":"2.0","id":1,"method":"list","params":[]}"#;
#[allow(dead_code)]
async fn server(creds: Option<rpc::rpc_creds::RpcCreds>) -> rpc::Rpc {
    rpc::Builder::new("127.0.0.1:0".parse().unwrap(), creds).with_method_list("list").build().await.unwrap()
}
#[allow(dead_code)]
fn fail(s: &str) -> ! { println!("{s}"); std::process::exit(1) }
'''
BUGS.append(dict(id='r01-verified-header-cached',prop='R01',harness='h-rpc',
 edits=[('rpc/src/rpc_auth/mod.rs','''    password_hash: KdfResult,
}
''','''    password_hash: KdfResult,
    /// The last header that was verified; hashing on every request is slow.
    verified: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
}
'''),('rpc/src/rpc_auth/mod.rs','''            password_hash,
        }
    }
''','''            password_hash,
            verified: Default::default(),
        }
    }
'''),('rpc/src/rpc_auth/mod.rs','''        let username_password_encoded = header
            .as_bytes()
''','''        {
            let verified = self.verified.lock().expect("poisoned mutex");
            if !verified.is_empty() && verified.iter().zip(header.as_bytes()).all(|(a, b)| a == b) {
                return Ok(true);
            }
        }
        let username_password_encoded = header
            .as_bytes()
'''),('rpc/src/rpc_auth/mod.rs','''        Ok(username_valid && password_valid)
''','''        if username_valid && password_valid {
            *self.verified.lock().expect("poisoned mutex") = header.as_bytes().to_vec();
        }
        Ok(username_valid && password_valid)
''')],
 needs='a correct request, and after it one whose credentials are cut short or extend the correct ones',
 breaks='credentials that are not the configured ones are accepted',
 deps=RPC,shims=True,gitvendor=True,main=COMMON+'''
#[tokio::main]
async fn main() {
    let s = server(Some(rpc::rpc_creds::RpcCreds::basic("user", "secrets!").unwrap())).await;
    let a = *s.http_address();
    let r = tokio::task::spawn_blocking(move || {
        ["user:secret", "user:secrets!", "user:secret", "user:secrets!x", "user:s"].iter().map(|x| {
            let mut c = TcpStream::connect(a).unwrap();
            post(&mut c, Some(&format!("Basic {}", b64(x))), CALL).0
        }).collect::<Vec<_>>()
    }).await.unwrap();
    println!("{r:?}");
    if r != [401, 200, 401, 401, 401] { fail("wrong credentials accepted") }
}
'''))
BUGS.append(dict(id='r01-empty-user-name',prop='R01',harness='h-rpc',
 edits=[('rpc/src/rpc_auth/mod.rs','''        let username_valid = SliceEqualityCheckMethod::timing_resistant_equal(
            self.username.as_bytes(),
            username.as_bytes(),
        );
''','''        let username_len = std::cmp::min(self.username.len(), username.len());
        let username_valid = SliceEqualityCheckMethod::timing_resistant_equal(
            &self.username.as_bytes()[..username_len],
            &username.as_bytes()[..username_len],
        );
''')],
 needs='a request with the right password and a user name that is a prefix of the right one or extends it',
 breaks='a user name that is not the configured one is accepted',
 deps=RPC,shims=True,gitvendor=True,main=COMMON+'''
#[tokio::main]
async fn main() {
    let s = server(Some(rpc::rpc_creds::RpcCreds::basic("user", "secret").unwrap())).await;
    let a = *s.http_address();
    let r = tokio::task::spawn_blocking(move || {
        ["user:secret", "use:secret", ":secret", "users:secret", "resu:secret"].iter().map(|x| {
            let mut c = TcpStream::connect(a).unwrap();
            post(&mut c, Some(&format!("Basic {}", b64(x))), CALL).0
        }).collect::<Vec<_>>()
    }).await.unwrap();
    println!("{r:?}");
    if r != [200, 401, 401, 401, 401] { fail("wrong user name accepted") }
}
'''))
BUGS.append(dict(id='r02-cookie-reused',prop='R02',harness='h-rpc',
 edits=[('rpc/src/rpc_creds.rs','''        write_file_atomically(&cookie_file, &cookie)
            .map_err(|e| RpcCredsError::CookieFileIoError(cookie_file.clone(), e))?;

        Ok(Self {
            username,
''','''        // Keep the credentials of an earlier run valid, if it has left them behind.
        if let Ok((old_username, password)) = utils::cookie::load_cookie(&cookie_file) {
            if old_username == username && password.len() == COOKIE_PASSWORD_LEN {
                return Ok(Self {
                    username,
                    password,
                    cookie_file: Some(cookie_file),
                });
            }
        }

        write_file_atomically(&cookie_file, &cookie)
            .map_err(|e| RpcCredsError::CookieFileIoError(cookie_file.clone(), e))?;

        Ok(Self {
            username,
''')],
 needs='an earlier run that was killed has left its cookie behind, with wider permissions',
 breaks='the file holds credentials of another run and can stay readable by others',
 deps=RPC,shims=True,gitvendor=True,main=COMMON+'''
use std::os::unix::fs::PermissionsExt;
fn main() {
    let d = std::env::temp_dir().join(format!("r02-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap();
    let p = d.join("cookie");
    let old = format!("__cookie__:{}", "a".repeat(32));
    std::fs::write(&p, &old).unwrap();
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o644)).unwrap();
    let c = rpc::rpc_creds::RpcCreds::cookie_file(p.clone()).unwrap();
    let now = std::fs::read_to_string(&p).unwrap();
    let mode = std::fs::metadata(&p).unwrap().permissions().mode() & 0o777;
    let ok = now != old && mode == 0o600;
    drop(c);
    std::fs::remove_dir_all(&d).unwrap();
    println!("mode {mode:o}, new credentials: {}", now != old);
    if !ok { fail("cookie of another run is used") }
}
'''))
BUGS.append(dict(id='r02-cookie-removed-before-server-stops',prop='R02',harness='h-rpc',
 edits=[('rpc/src/lib.rs','''    pub async fn shutdown(self) {
        match self.http.1.stop() {
            Ok(()) => self.http.1.stopped().await,
''','''    pub async fn shutdown(self) {
        let Self { http, _creds } = self;
        drop(_creds);
        match http.1.stop() {
            Ok(()) => http.1.stopped().await,
''')],
 needs='a request is still being served when the shutdown begins',
 breaks='the cookie file is gone while the server still runs and accepts those credentials',
 deps={**RPC,'jsonrpsee':'{ version = "0.26", features = ["server", "ws-client"] }'},shims=True,gitvendor=True,main=COMMON+'''
#[tokio::main]
async fn main() {
    let d = std::env::temp_dir().join(format!("r02-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap();
    let p = d.join("cookie");
    let creds = rpc::rpc_creds::RpcCreds::cookie_file(p.clone()).unwrap();
    let h = format!("Basic {}", b64(&format!("{}:{}", creds.username(), creds.password())));
    let mut m = jsonrpsee::RpcModule::new(());
    m.register_async_method("slow", |_, _, _| async { tokio::time::sleep(Duration::from_secs(3)).await; 1 }).unwrap();
    let s = rpc::Builder::new("127.0.0.1:0".parse().unwrap(), Some(creds)).register(m).build().await.unwrap();
    let a = *s.http_address();
    let t = tokio::task::spawn_blocking(move || { let mut c = TcpStream::connect(a).unwrap(); post(&mut c, Some(&h), r#"{"jsonrpc":"2.0","id":1,"method":"slow","params":[]}"#).0 });
    tokio::time::sleep(Duration::from_millis(700)).await;
    let stop = tokio::spawn(s.shutdown());
    tokio::time::sleep(Duration::from_millis(500)).await;
    let there = p.exists() || stop.is_finished();
    let code = t.await.unwrap();
    stop.await.unwrap();
    let removed = !p.exists();
    std::fs::remove_dir_all(&d).unwrap();
    println!("there while stopping: {there}, answer {code}, removed in the end: {removed}");
    if !there || !removed { fail("cookie does not live as long as the server") }
}
'''))
BUGS.append(dict(id='r03-slow-subscriber-misses-events',prop='R03',harness='h-rpc',
 edits=[('rpc/src/subscription.rs','''        self.sink.send(msg).await.map_err(|_| Error::ConnectionClosed)
''','''        // Do not let a client that does not keep up hold up everything else.
        match self.sink.send_timeout(msg, std::time::Duration::from_millis(500)).await {
            Ok(()) | Err(jsonrpsee::SendTimeoutError::Timeout(_)) => Ok(()),
            Err(jsonrpsee::SendTimeoutError::Closed(_)) => Err(Error::ConnectionClosed),
        }
''')],
 needs='a subscriber that does not read for a while when more events wait for it than the buffers take',
 breaks='events are silently left out for that subscriber',
 deps={**RPC,'jsonrpsee':'{ version = "0.26", features = ["server"] }'},shims=True,gitvendor=True,main=COMMON+'''
const N: u32 = 4000;
fn exact(c: &mut TcpStream, n: usize) -> Vec<u8> { let mut b = vec![0; n]; c.read_exact(&mut b).unwrap(); b }
fn frame(c: &mut TcpStream) -> String {
    let h = exact(c, 2);
    let n = match h[1] & 127 { 126 => u16::from_be_bytes(exact(c, 2).try_into().unwrap()) as usize, 127 => u64::from_be_bytes(exact(c, 8).try_into().unwrap()) as usize, n => n as usize };
    String::from_utf8(exact(c, n)).unwrap()
}
#[tokio::main]
async fn main() {
    let mut m = jsonrpsee::RpcModule::new(());
    m.register_subscription("sub", "event", "unsub", move |_, pending, _, _| async move {
        let mut b = utils_networking::broadcaster::Broadcaster::<(u32, String)>::new();
        let rx = b.subscribe();
        for i in 0..N { b.broadcast(&(i, "x".repeat(8000))); }
        drop(b);
        rpc::subscription::connect_broadcast(rx, pending).await
    }).unwrap();
    let s = rpc::Builder::new("127.0.0.1:0".parse().unwrap(), None).register(m).build().await.unwrap();
    let a = *s.http_address();
    let got = tokio::task::spawn_blocking(move || {
        let mut c = TcpStream::connect(a).unwrap();
        c.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        c.write_all(b"GET / HTTP/1.1\\r\\nHost: x\\r\\nConnection: Upgrade\\r\\nUpgrade: websocket\\r\\nSec-WebSocket-Version: 13\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n").unwrap();
        let mut h = vec![];
        while !h.ends_with(b"\\r\\n\\r\\n") { h.extend(exact(&mut c, 1)); }
        let m = r#"{"jsonrpc":"2.0","id":1,"method":"sub","params":[]}"#;
        let mut f = vec![0x81, 0x80 | m.len() as u8, 0, 0, 0, 0];
        f.extend(m.as_bytes());
        c.write_all(&f).unwrap();
        let mut got: Vec<u32> = vec![];
        std::thread::sleep(Duration::from_secs(4));
        while got.last() != Some(&(N - 1)) {
            let t = frame(&mut c);
            let Some((_, r)) = t.split_once("result\\":[") else { continue };
            got.push(r.split(',').next().unwrap().parse().unwrap());
        }
        got
    }).await.unwrap();
    println!("{} events", got.len());
    if got != (0..N).collect::<Vec<_>>() { fail("events are missing") }
}
'''))
BUGS.append(dict(id='r03-shutdown-does-not-wait',prop='R03',harness='h-rpc',
 edits=[('rpc/src/lib.rs','''            Ok(()) => self.http.1.stopped().await,
''','''            Ok(()) => log::info!("The http RPC server is stopping"),
''')],
 needs='a request is in progress when the server is asked to stop',
 breaks='shutdown reports that the server is stopped while it still runs, and cuts off its clients',
 deps={**RPC,'jsonrpsee':'{ version = "0.26", features = ["server", "ws-client"] }'},shims=True,gitvendor=True,main=COMMON+'''
use std::sync::atomic::*;
static DONE: AtomicBool = AtomicBool::new(false);
#[tokio::main]
async fn main() {
    let mut m = jsonrpsee::RpcModule::new(());
    m.register_async_method("slow", |_, _, _| async { tokio::time::sleep(Duration::from_secs(4)).await; DONE.store(true, Ordering::SeqCst); 1 }).unwrap();
    let s = rpc::Builder::new("127.0.0.1:0".parse().unwrap(), None).register(m).build().await.unwrap();
    let a = *s.http_address();
    let t = tokio::task::spawn_blocking(move || { let mut c = TcpStream::connect(a).unwrap(); post(&mut c, None, r#"{"jsonrpc":"2.0","id":1,"method":"slow","params":[]}"#).0 });
    tokio::time::sleep(Duration::from_millis(500)).await;
    s.shutdown().await;
    let finished = DONE.load(Ordering::SeqCst);
    let code = t.await.unwrap();
    println!("request finished before the shutdown was over: {finished}, answer {code}");
    if !finished { fail("shutdown did not wait for the server") }
}
'''))
