//! Raw HTTP and WebSocket clients over blocking sockets.
use base64::Engine;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::{Arc, mpsc};
use std::time::Duration;

#[derive(Debug, PartialEq, Clone)]
pub enum Fail {
    Closed,
    Timeout,
    Io(String),
    Malformed(String),
}
pub type Res<T> = Result<T, Fail>;
pub struct Conn {
    pub s: Arc<TcpStream>,
    out: Option<mpsc::Sender<Vec<u8>>>,
    buf: Vec<u8>,
    pub addr: SocketAddr,
}
#[derive(Debug, Clone)]
pub struct Response {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
fn fail(e: std::io::Error) -> Fail {
    match e.kind() {
        std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => Fail::Timeout,
        std::io::ErrorKind::ConnectionReset | std::io::ErrorKind::BrokenPipe | std::io::ErrorKind::NotConnected | std::io::ErrorKind::ConnectionRefused => Fail::Closed,
        _ => Fail::Io(e.to_string()),
    }
}
pub fn basic(user: &str, pass: &str) -> String {
    format!("Basic {}", b64(format!("{user}:{pass}").as_bytes()))
}
pub fn b64(b: &[u8]) -> String {
    base64::engine::general_purpose::STANDARD.encode(b)
}
impl Conn {
    pub fn open(addr: SocketAddr) -> Res<Conn> {
        let s = TcpStream::connect(addr).map_err(fail)?;
        s.set_read_timeout(Some(Duration::from_secs(600))).map_err(fail)?;
        s.set_write_timeout(Some(Duration::from_secs(600))).map_err(fail)?;
        Ok(Conn { s: Arc::new(s), out: None, buf: vec![], addr })
    }
    /// A connection that goes on reading while what it sends is not taken: sending is done by another thread.
    pub fn duplex(addr: SocketAddr) -> Res<Conn> {
        let mut c = Conn::open(addr)?;
        let (tx, rx) = mpsc::channel::<Vec<u8>>();
        let s = c.s.clone();
        c.out = Some(tx);
        std::thread::spawn(move || {
            while let Ok(b) = rx.recv() {
                if (&*s).write_all(&b).is_err() {
                    break;
                }
            }
        });
        Ok(c)
    }
    pub fn raw(&mut self, b: &[u8]) -> Res<()> {
        match &self.out {
            Some(o) => o.send(b.to_vec()).map_err(|_| Fail::Closed),
            None => (&*self.s).write_all(b).map_err(fail),
        }
    }
    fn more(&mut self) -> Res<()> {
        let mut b = [0u8; 4096];
        let n = (&*self.s).read(&mut b).map_err(fail)?;
        if n == 0 {
            return Err(Fail::Closed);
        }
        self.buf.extend_from_slice(&b[..n]);
        Ok(())
    }
    pub fn send(&mut self, method: &str, auth: &[String], extra: &str, body: &[u8]) -> Res<()> {
        let mut m = format!("{method} / HTTP/1.1\r\nHost: {}\r\n", self.addr);
        for a in auth {
            m.push_str(&format!("Authorization: {a}\r\n"));
        }
        m.push_str(extra);
        if method == "POST" {
            m.push_str(&format!("Content-Type: application/json\r\nContent-Length: {}\r\n", body.len()));
        }
        m.push_str("\r\n");
        let mut b = m.into_bytes();
        b.extend_from_slice(body);
        self.raw(&b)
    }
    fn line(&mut self) -> Res<String> {
        loop {
            if let Some(p) = self.buf.windows(2).position(|w| w == b"\r\n") {
                let l: Vec<u8> = self.buf.drain(..p + 2).collect();
                return String::from_utf8(l[..p].to_vec()).map_err(|e| Fail::Malformed(e.to_string()));
            }
            self.more()?;
        }
    }
    fn take(&mut self, n: usize) -> Res<Vec<u8>> {
        while self.buf.len() < n {
            self.more()?;
        }
        Ok(self.buf.drain(..n).collect())
    }
    pub fn response(&mut self) -> Res<Response> {
        let l = self.line()?;
        let status = l.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or(Fail::Malformed(l.clone()))?;
        let mut headers = vec![];
        loop {
            let l = self.line()?;
            if l.is_empty() {
                break;
            }
            let (k, v) = l.split_once(':').ok_or(Fail::Malformed(l.clone()))?;
            headers.push((k.trim().to_lowercase(), v.trim().to_string()));
        }
        let get = |k: &str| headers.iter().find(|(a, _)| a == k).map(|(_, v)| v.clone());
        let mut body = vec![];
        if status == 101 {
        } else if let Some(n) = get("content-length") {
            body = self.take(n.parse().map_err(|_| Fail::Malformed(n.clone()))?)?;
        } else if get("transfer-encoding").as_deref() == Some("chunked") {
            loop {
                let n = usize::from_str_radix(&self.line()?, 16).map_err(|e| Fail::Malformed(e.to_string()))?;
                body.extend(self.take(n)?);
                self.take(2)?;
                if n == 0 {
                    break;
                }
            }
        }
        Ok(Response { status, headers, body })
    }
    pub fn post(&mut self, auth: &[String], body: &str) -> Res<Response> {
        self.send("POST", auth, "", body.as_bytes())?;
        self.response()
    }
    /// Ask for a WebSocket; the status tells whether it was granted.
    pub fn upgrade(&mut self, auth: &[String]) -> Res<Response> {
        self.send("GET", auth, "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n", b"")?;
        self.response()
    }
    pub fn ws_frame(&mut self, op: u8, fin: bool, data: &[u8]) -> Res<()> {
        let mut f = vec![op | if fin { 0x80 } else { 0 }];
        match data.len() {
            n if n < 126 => f.push(0x80 | n as u8),
            n if n < 65536 => {
                f.push(0x80 | 126);
                f.extend((n as u16).to_be_bytes());
            }
            n => {
                f.push(0x80 | 127);
                f.extend((n as u64).to_be_bytes());
            }
        }
        let mask = [1u8, 2, 3, 4];
        f.extend(mask);
        f.extend(data.iter().enumerate().map(|(i, b)| b ^ mask[i % 4]));
        self.raw(&f)
    }
    pub fn ws_send(&mut self, text: &str) -> Res<()> {
        self.ws_frame(1, true, text.as_bytes())
    }
    /// Next text message (answers pings).
    pub fn ws_recv(&mut self) -> Res<String> {
        let mut msg = vec![];
        loop {
            let h = self.take(2)?;
            let n = match h[1] & 0x7f {
                126 => u16::from_be_bytes(self.take(2)?.try_into().unwrap()) as usize,
                127 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()) as usize,
                n => n as usize,
            };
            let d = self.take(n)?;
            match h[0] & 0xf {
                0..=2 => {
                    msg.extend(d);
                    if h[0] & 0x80 != 0 {
                        return String::from_utf8(msg).map_err(|e| Fail::Malformed(e.to_string()));
                    }
                }
                8 => return Err(Fail::Closed),
                9 => self.ws_frame(10, true, &d)?,
                _ => {}
            }
        }
    }
}
