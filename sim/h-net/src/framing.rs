//! Readers and writers of messages over a byte stream that this harness hands out piece by piece.
use detsim::*;
use networking::transport::{MessageReader, MessageWriter};
use serialization::Encode;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{Error, ErrorKind, Result};
use std::pin::{Pin, pin};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub type Msg = (u32, Option<bool>, Vec<u8>, String);
pub fn w(n: u64) -> u64 {
    choose(Stream::Work, n)
}
fn f(n: u64) -> u64 {
    choose(Stream::Fault, n)
}
fn wchance(a: u64, b: u64) -> bool {
    chance(Stream::Work, a, b)
}
fn fchance(a: u64, b: u64) -> bool {
    chance(Stream::Fault, a, b)
}
fn bytes(n: u64) -> Vec<u8> {
    let mut x = w(1 << 30);
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 40) as u8
        })
        .collect()
}
pub fn msg(i: u32, max: u64) -> Msg {
    let n = match w(4) {
        0 => 0,
        1 => w(4),
        2 => w(max.min(80) + 1),
        _ => w(max + 1),
    };
    (i, [None, Some(false), Some(true)][w(3) as usize], bytes(n), "aé€".repeat(w(3) as usize))
}
#[derive(Default)]
struct Io {
    /// What the stream still has to give.
    input: VecDeque<u8>,
    given: usize,
    eof: bool,
    fail: Option<ErrorKind>,
    /// What was written, and the faults of writing.
    output: Vec<u8>,
    write_fail_at: Option<usize>,
    calm: bool,
    biggest: usize,
    flushed: usize,
}
struct Pipe(Arc<Mutex<Io>>);
impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let mut io = self.0.lock().unwrap();
        io.biggest = io.biggest.max(buf.remaining());
        if io.input.is_empty() {
            if let Some(e) = io.fail {
                count("fault.read_error", 1);
                return Poll::Ready(Err(e.into()));
            }
            return if io.eof { Poll::Ready(Ok(())) } else { Poll::Pending };
        }
        if !io.calm && fchance(1, 3) {
            count("fault.stall", 1);
            return Poll::Pending;
        }
        let all = io.input.len().min(buf.remaining());
        let n = if io.calm { all } else { [1, 2, 5, all as u64][f(4) as usize].min(all as u64).max(1) as usize };
        if n < all {
            count("fault.short_read", 1);
        }
        let v: Vec<u8> = io.input.drain(..n).collect();
        io.given += n;
        buf.put_slice(&v);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        let mut io = self.0.lock().unwrap();
        if !io.calm && fchance(1, 3) {
            count("fault.stall", 1);
            return Poll::Pending;
        }
        let mut n = if io.calm { buf.len() } else { [1, 2, 7, buf.len() as u64][f(4) as usize].min(buf.len() as u64) as usize };
        if let Some(at) = io.write_fail_at {
            if io.output.len() >= at {
                count("fault.write_error", 1);
                return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
            }
            n = n.min(at - io.output.len());
        }
        if n < buf.len() {
            count("fault.short_write", 1);
        }
        io.output.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        let mut io = self.0.lock().unwrap();
        if !io.calm && fchance(1, 4) {
            return Poll::Pending;
        }
        io.flushed = io.output.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
}
pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(body);
    v
}
/// What a message looks like on the wire, written down independently.
pub fn wire(m: &Msg) -> Vec<u8> {
    fn len(v: &mut Vec<u8>, n: usize) {
        if n < 64 {
            v.push((n as u8) << 2);
        } else if n < 1 << 14 {
            v.extend(((n as u16) << 2 | 1).to_le_bytes());
        } else {
            v.extend(((n as u32) << 2 | 2).to_le_bytes());
        }
    }
    let mut v = m.0.to_le_bytes().to_vec();
    match m.1 {
        None => v.push(0),
        Some(b) => v.extend([1, b as u8]),
    }
    len(&mut v, m.2.len());
    v.extend(&m.2);
    len(&mut v, m.3.len());
    v.extend(m.3.as_bytes());
    v
}
#[derive(Debug)]
enum End {
    Eof,
    TooLarge,
    Undecodable,
    Io,
    /// Nothing more arrives, but the stream stays open.
    Silence,
}
/// Every kind of stream, cut anywhere: what is received is known byte by byte.
pub fn framing() {
    let limit = wchance(3, 4).then(|| [40, 200, 3000][w(3) as usize] as usize);
    let mut input: Vec<u8> = vec![];
    let mut want: Vec<Msg> = vec![];
    // Input bytes that have to be given before a message is complete, and before the end is known.
    let mut due: Vec<usize> = vec![];
    let mut end = None;
    let n = 1 + w(8);
    for i in 0..n {
        let m = msg(i as u32, 400);
        let body = wire(&m);
        check!(body == m.encode(), "N01/encoding", "the codec's encoding of {m:?} is not the expected one");
        let fits = limit.is_none_or(|l| body.len() <= l);
        let bad = if fchance(1, 8) { 1 + f(6) } else { 0 };
        let mut sent = body.clone();
        match bad {
            // Something after the message, inside its frame.
            1 => sent.extend(bytes(1 + f(3))),
            2 => sent.truncate(sent.len() - 1 - f(sent.len() as u64) as usize),
            // An unknown tag.
            3 => sent[4] = 2 + f(200) as u8,
            // Not a string.
            4 => {
                let mut m2 = m.clone();
                m2.3 = "ab".into();
                sent = wire(&m2);
                let l = sent.len();
                sent[l - 1] = 0xff;
            }
            5 => sent = vec![],
            // A frame that announces more than is allowed, of which nothing else may be waited for.
            6 => {
                if let Some(l) = limit {
                    let n = if fchance(1, 2) { l as u64 + 1 + f(5) } else { l as u64 + 1 + f(u32::MAX as u64 - l as u64) };
                    input.extend((n as u32).to_le_bytes());
                    end.get_or_insert((End::TooLarge, input.len()));
                    count("fault.oversized", 1);
                    if fchance(1, 2) {
                        input.extend(bytes(n.min(500)));
                    }
                    continue;
                }
            }
            _ => {}
        }
        let at = input.len();
        input.extend(frame(&sent));
        if end.is_some() {
            continue;
        }
        if limit.is_some_and(|l| sent.len() > l) {
            end = Some((End::TooLarge, at + 4));
            count("fault.oversized", 1);
        } else if sent != body {
            end = Some((End::Undecodable, input.len()));
            count("fault.undecodable", 1);
        } else {
            assert!(fits);
            want.push(m);
            due.push(input.len());
        }
    }
    if fchance(1, 2) {
        let cut = f(input.len() as u64 + 1) as usize;
        input.truncate(cut);
        count("fault.cut", 1);
        let whole = due.iter().filter(|d| **d <= cut).count();
        want.truncate(whole);
        due.truncate(whole);
        if end.as_ref().is_some_and(|e| e.1 > cut) {
            end = None;
        }
    }
    let total = input.len();
    let io = Arc::new(Mutex::new(Io { input: input.into(), ..Io::default() }));
    let (end, end_at) = end.unwrap_or_else(|| match f(3) {
        0 => {
            io.lock().unwrap().eof = true;
            (End::Eof, total)
        }
        1 => {
            io.lock().unwrap().fail = Some([ErrorKind::ConnectionReset, ErrorKind::TimedOut][f(2) as usize]);
            (End::Io, total)
        }
        _ => (End::Silence, total),
    });
    ev!("{} messages, then {end:?}, limit {limit:?}", want.len());
    let (read, _write) = tokio::io::split(Pipe(io.clone()));
    let mut reader: MessageReader<Pipe, Msg> = MessageReader::new(read, limit);
    let mut got = 0;
    let mut last_polls = 0;
    let mut cx = Context::from_waker(Waker::noop());
    'recv: loop {
        // One receive after another, some given up after a few steps.
        let give_up = fchance(1, 3).then(|| f(4));
        let mut polls = 0;
        let mut fut = pin!(reader.recv());
        let r = loop {
            if give_up.is_some_and(|g| polls > g) {
                count("fault.recv_cancelled", 1);
                continue 'recv;
            }
            match fut.as_mut().poll(&mut cx) {
                Poll::Ready(r) => break r,
                Poll::Pending => {}
            }
            polls += 1;
            let rest = io.lock().unwrap().input.len();
            if rest == 0 {
                // Everything arrived; what is complete has to come out now.
                last_polls += 1;
                if last_polls > 50 + got as u64 {
                    check!(matches!(end, End::Silence) && got == want.len(), "N01/stuck", "all {total} bytes have arrived, {got} of {} messages came out and nothing happens although the stream goes on with {end:?}", want.len());
                    break 'recv;
                }
            }
            if polls > 200_000 {
                violation("N01/stuck", format!("receiving makes no progress after {got} messages"));
            }
        };
        let given = io.lock().unwrap().given;
        match r {
            Ok(m) => {
                ev!("received {} after {given} bytes", m.0);
                check!(want.get(got) == Some(&m), "N01/sequence", "message {got} received is {m:?} instead of {:?}", want.get(got));
                check!(given >= due[got], "N01/partial", "message {got} came out after {given} bytes, before its last byte at {}", due[got]);
                got += 1;
                last_polls = 0;
            }
            Err(e) => {
                let e = format!("{e:?}");
                ev!("error after {given} bytes: {e}");
                check!(got == want.len(), "N01/lost", "the stream ended with {e} after {got} of {} messages", want.len());
                check!(given >= end_at.min(total), "N01/early_end", "the stream ended with {e} after {given} bytes, although the next {end:?} is at {end_at}");
                let ok = match end {
                    End::Eof => e.contains("UnexpectedEof"),
                    End::TooLarge => e.contains("MessageTooLarge"),
                    End::Undecodable => e.contains("InvalidEncodedData"),
                    End::Io => e.contains("ConnectionReset") || e.contains("TimedOut"),
                    End::Silence => false,
                };
                check!(ok, "N01/wrong_end", "the stream goes on with {end:?}, but the error is {e}");
                break;
            }
        }
    }
    if got > 0 {
        nontrivial();
    }
    count("messages", got as u64);
}
/// Sending: what is written is the frames of what was accepted, in order; a refused message leaves no trace.
pub fn writer() {
    let limit = wchance(3, 4).then(|| [40, 200, 3000][w(3) as usize] as usize);
    let io = Arc::new(Mutex::new(Io::default()));
    if fchance(1, 4) {
        io.lock().unwrap().write_fail_at = Some(f(600) as usize);
    }
    let (_read, write) = tokio::io::split(Pipe(io.clone()));
    let mut wr: MessageWriter<Pipe, Msg> = MessageWriter::new(write, limit);
    let mut want: Vec<u8> = vec![];
    let mut cx = Context::from_waker(Waker::noop());
    let n = 1 + w(8);
    let mut sent = 0;
    for i in 0..n {
        let m = msg(i as u32, 400);
        let body = wire(&m);
        let fits = limit.is_none_or(|l| body.len() <= l);
        let give_up = fchance(1, 12).then(|| f(6));
        let before = io.lock().unwrap().output.len();
        let mut polls = 0;
        let r = {
            let mut fut = pin!(wr.send(m));
            loop {
                if give_up.is_some_and(|g| polls > g) {
                    break None;
                }
                match fut.as_mut().poll(&mut cx) {
                    Poll::Ready(r) => break Some(r),
                    Poll::Pending => polls += 1,
                }
                if polls > 200_000 {
                    violation("N01/stuck", format!("sending message {i} makes no progress"));
                }
            }
        };
        let io = io.lock().unwrap();
        ev!("send {i} of {} bytes -> {}", body.len(), match &r { None => "given up".into(), Some(Ok(())) => "ok".to_string(), Some(Err(e)) => format!("{e:?}") });
        if !fits {
            if let Some(r) = &r {
                check!(format!("{r:?}").contains("MessageTooLarge"), "N01/oversized_sent", "a message of {} bytes with a limit of {limit:?} was not refused: {r:?}", body.len());
            }
            check!(io.output.len() == before, "N01/refused_left_bytes", "a refused message left {} bytes in the stream", io.output.len() - before);
            continue;
        }
        want.extend(frame(&body));
        let at = io.output.len();
        check!(at <= want.len() && io.output[..] == want[..at], "N01/written", "what was written is not what was sent");
        match r {
            Some(Ok(())) => {
                check!(at == want.len(), "N01/written", "message {i} counts as sent, but only {at} of {} bytes were written", want.len());
                check!(io.flushed == at, "N01/not_flushed", "message {i} counts as sent, but only {} of {at} bytes were flushed", io.flushed);
                sent += 1;
            }
            // Broken or given up half-way: the connection is done for.
            Some(Err(_)) => {
                check!(io.write_fail_at.is_some(), "N01/send_failed", "message {i} was not sent although nothing failed");
                break;
            }
            None => {
                count("fault.send_cancelled", 1);
                break;
            }
        }
    }
    if sent > 0 {
        nontrivial();
    }
    count("messages", sent);
    let _ = Error::other("");
}
