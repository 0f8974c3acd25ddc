//! A stand-in with snowstorm's interface: three handshake messages in which the sides exchange their public keys,
//! then frames with a length and a tag that depends on both keys, the direction and the frame's number, so that
//! damaged, lost or repeated frames are refused. No secrecy.
use std::io::{Error, ErrorKind, Result};
use std::pin::Pin;
use std::task::{Context, Poll, ready};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};

pub type SnowstormError = Error;
#[derive(Clone, Debug)]
pub struct NoiseParams;
impl std::str::FromStr for NoiseParams {
    type Err = Error;
    fn from_str(_: &str) -> Result<Self> {
        Ok(Self)
    }
}
pub struct Keypair {
    pub private: Vec<u8>,
    pub public: Vec<u8>,
}
pub struct Builder<'a> {
    key: &'a [u8],
}
impl<'a> Builder<'a> {
    pub fn new(_: NoiseParams) -> Self {
        Self { key: &[] }
    }
    pub fn generate_keypair(&self) -> Result<Keypair> {
        let mut k = vec![0u8; 32];
        getrandom::getrandom(&mut k).map_err(|e| Error::other(e.to_string()))?;
        Ok(Keypair { public: k.iter().rev().copied().collect(), private: k })
    }
    pub fn local_private_key(mut self, key: &'a [u8]) -> Self {
        self.key = key;
        self
    }
    fn build(self, initiator: bool) -> Result<HandshakeState> {
        let mut e = [0u8; 32];
        getrandom::getrandom(&mut e).map_err(|e| Error::other(e.to_string()))?;
        Ok(HandshakeState { initiator, public: self.key.iter().rev().copied().collect(), e })
    }
    pub fn build_initiator(self) -> Result<HandshakeState> {
        self.build(true)
    }
    pub fn build_responder(self) -> Result<HandshakeState> {
        self.build(false)
    }
}
pub struct HandshakeState {
    initiator: bool,
    public: Vec<u8>,
    e: [u8; 32],
}
pub struct State {
    remote: Vec<u8>,
}
impl State {
    pub fn get_remote_static(&self) -> Option<&[u8]> {
        Some(&self.remote)
    }
}
fn mix(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(5);
    }
    h
}
const MAX: usize = 65535 - TAG;
const TAG: usize = 8;
pub struct NoiseStream<T> {
    inner: T,
    state: State,
    /// keys and frame numbers of what is sent and what is received
    key: [u64; 2],
    seq: [u64; 2],
    rin: Vec<u8>,
    rplain: Vec<u8>,
    rpos: usize,
    out: Vec<u8>,
    opos: usize,
}
async fn put<T: AsyncWrite + Unpin>(s: &mut T, m: &[u8]) -> Result<()> {
    let mut v = (m.len() as u16).to_be_bytes().to_vec();
    v.extend(m);
    s.write_all(&v).await?;
    s.flush().await
}
async fn get<T: AsyncRead + Unpin>(s: &mut T, want: usize) -> Result<Vec<u8>> {
    let mut l = [0u8; 2];
    s.read_exact(&mut l).await?;
    let l = u16::from_be_bytes(l) as usize;
    let mut v = vec![0u8; l];
    s.read_exact(&mut v).await?;
    if l != want {
        return Err(Error::new(ErrorKind::InvalidData, "bad handshake message"));
    }
    Ok(v)
}
impl<T: AsyncRead + AsyncWrite + Unpin> NoiseStream<T> {
    pub async fn handshake(mut inner: T, st: HandshakeState) -> Result<Self> {
        // -> e   <- e, s, tag   -> s, tag
        let tag = |k: u64, b: &[u8]| mix(k, b).to_be_bytes();
        let bad = || Error::new(ErrorKind::InvalidData, "handshake does not verify");
        let (remote, k);
        if st.initiator {
            put(&mut inner, &st.e).await?;
            let r = get(&mut inner, 32 + 32 + 8).await?;
            let kk = mix(mix(0xcbf29ce484222325, &st.e), &r[..32]);
            if tag(kk, &r[32..64]) != r[64..] {
                return Err(bad());
            }
            remote = r[32..64].to_vec();
            let mut m = st.public.clone();
            m.extend(tag(mix(kk, &remote), &st.public));
            put(&mut inner, &m).await?;
            k = mix(mix(kk, &remote), &st.public);
        } else {
            let re = get(&mut inner, 32).await?;
            let kk = mix(mix(0xcbf29ce484222325, &re), &st.e);
            let mut m = st.e.to_vec();
            m.extend(&st.public);
            m.extend(tag(kk, &st.public));
            put(&mut inner, &m).await?;
            let r = get(&mut inner, 32 + 8).await?;
            if tag(mix(kk, &st.public), &r[..32]) != r[32..] {
                return Err(bad());
            }
            remote = r[..32].to_vec();
            k = mix(mix(kk, &st.public), &remote);
        }
        let (a, b) = (mix(k, b"initiator"), mix(k, b"responder"));
        let key = if st.initiator { [a, b] } else { [b, a] };
        Ok(Self { inner, state: State { remote }, key, seq: [0; 2], rin: vec![], rplain: vec![], rpos: 0, out: vec![], opos: 0 })
    }
}
impl<T> NoiseStream<T> {
    pub fn get_state(&self) -> &State {
        &self.state
    }
    pub fn get_inner(&self) -> &T {
        &self.inner
    }
}
fn code(key: u64, seq: u64, b: &mut [u8]) {
    let mut x = mix(key, &seq.to_be_bytes());
    for v in b {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *v ^= (x >> 56) as u8;
    }
}
impl<T: AsyncRead + Unpin> AsyncRead for NoiseStream<T> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let me = self.get_mut();
        loop {
            if me.rpos < me.rplain.len() {
                let n = (me.rplain.len() - me.rpos).min(buf.remaining());
                buf.put_slice(&me.rplain[me.rpos..me.rpos + n]);
                me.rpos += n;
                return Poll::Ready(Ok(()));
            }
            if me.rin.len() >= 2 {
                let l = u16::from_be_bytes([me.rin[0], me.rin[1]]) as usize;
                if l < TAG {
                    return Poll::Ready(Err(Error::new(ErrorKind::InvalidData, "frame too short")));
                }
                if me.rin.len() >= 2 + l {
                    let mut p = me.rin[2..2 + l - TAG].to_vec();
                    if mix(me.key[1] ^ me.seq[1], &p).to_be_bytes() != me.rin[2 + l - TAG..2 + l] {
                        return Poll::Ready(Err(Error::new(ErrorKind::InvalidData, "decrypt error")));
                    }
                    code(me.key[1], me.seq[1], &mut p);
                    me.seq[1] += 1;
                    me.rin.drain(..2 + l);
                    me.rplain = p;
                    me.rpos = 0;
                    continue;
                }
            }
            let mut tmp = [0u8; 4096];
            let mut rb = ReadBuf::new(&mut tmp);
            ready!(Pin::new(&mut me.inner).poll_read(cx, &mut rb))?;
            if rb.filled().is_empty() {
                if me.rin.is_empty() {
                    return Poll::Ready(Ok(()));
                }
                return Poll::Ready(Err(ErrorKind::UnexpectedEof.into()));
            }
            me.rin.extend_from_slice(rb.filled());
        }
    }
}
impl<T: AsyncWrite + Unpin> NoiseStream<T> {
    fn drain(&mut self, cx: &mut Context<'_>) -> Poll<Result<()>> {
        while self.opos < self.out.len() {
            let n = ready!(Pin::new(&mut self.inner).poll_write(cx, &self.out[self.opos..]))?;
            if n == 0 {
                return Poll::Ready(Err(ErrorKind::WriteZero.into()));
            }
            self.opos += n;
        }
        self.out.clear();
        self.opos = 0;
        Poll::Ready(Ok(()))
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for NoiseStream<T> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        let me = self.get_mut();
        ready!(me.drain(cx))?;
        let n = buf.len().min(MAX);
        let mut p = buf[..n].to_vec();
        code(me.key[0], me.seq[0], &mut p);
        let t = mix(me.key[0] ^ me.seq[0], &p).to_be_bytes();
        me.seq[0] += 1;
        me.out.extend(((n + TAG) as u16).to_be_bytes());
        me.out.extend(p);
        me.out.extend(t);
        if let Poll::Ready(Err(e)) = me.drain(cx) {
            return Poll::Ready(Err(e));
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let me = self.get_mut();
        ready!(me.drain(cx))?;
        Pin::new(&mut me.inner).poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let me = self.get_mut();
        ready!(me.drain(cx))?;
        Pin::new(&mut me.inner).poll_shutdown(cx)
    }
}
