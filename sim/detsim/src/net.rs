//! Simulated file descriptors: TCP sockets, epoll instances, event descriptors and (with `fsim`) files.
//! They are reached through the libc functions that std, mio and tokio call; see the symbols below.
use crate::choice::Stream;
use crate::fsim;
use crate::rt::*;
use libc::{c_int, c_void, sockaddr, socklen_t};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::{Ipv4Addr, SocketAddrV4};

pub const FD0: i32 = 5000;
#[derive(Clone, Debug)]
pub struct NetCfg {
    /// largest delay of a piece of data (0: none)
    pub latency: u64,
    /// of 1000 writes: split into pieces / accepted only in part
    pub split: u64,
    pub short_write: u64,
    pub short_read: u64,
    /// of 1000 pieces of data: delayed by up to `stall`
    pub stall_chance: u64,
    pub stall: u64,
    /// send and receive buffer of one direction of a connection
    pub buffer: usize,
    /// of 1000 writes: the connection breaks
    pub reset: u64,
}
impl Default for NetCfg {
    fn default() -> Self {
        Self { latency: 0, split: 0, short_write: 0, short_read: 0, stall_chance: 0, stall: 0, buffer: 64 * 1024, reset: 0 }
    }
}
enum Item {
    Data(Vec<u8>),
    Fin,
    Rst,
}
#[derive(Default)]
struct Dir {
    inflight: VecDeque<(u64, Item)>,
    rbuf: VecDeque<u8>,
    fin: bool,
    rst: bool,
    rst_reported: bool,
    fin_sent: bool,
    outstanding: usize,
    last: u64,
    /// the receiver no longer exists
    closed: bool,
    buffer: usize,
}
/// `dirs[s]` carries what side `s` sends.
struct Conn {
    dirs: [Dir; 2],
    obj: [usize; 2],
}
enum Sk {
    New,
    Listening { queue: VecDeque<(u64, usize)> },
    Connected { conn: usize, side: usize, since: u64 },
}
struct Sock {
    sk: Sk,
    local: SocketAddrV4,
    peer: SocketAddrV4,
    bound: bool,
    err: i32,
    rcvtimeo: u64,
    sndtimeo: u64,
    linger0: bool,
}
struct Reg {
    events: u32,
    data: u64,
    pending: bool,
}
enum Kind {
    Epoll(BTreeMap<i32, (usize, Reg)>),
    Event(u64),
    Sock(Sock),
    File(fsim::Open),
}
struct Obj {
    refs: u32,
    nonblock: bool,
    kind: Kind,
}
#[derive(Default)]
pub struct Net {
    fds: BTreeMap<i32, usize>,
    objs: BTreeMap<usize, Obj>,
    conns: BTreeMap<usize, Conn>,
    next: usize,
    next_port: u16,
    pub cfg: NetCfg,
    wake: BTreeSet<usize>,
    /// (from, to) address pairs whose traffic is held back
    blocked: BTreeSet<(Ipv4Addr, Ipv4Addr)>,
    pub(crate) local_ip: BTreeMap<usize, Ipv4Addr>,
}
fn net() -> &'static mut Net {
    &mut sim().devices
}
const FOREVER: u64 = u64::MAX;

impl Net {
    /// Stop injecting faults.
    pub fn calm(&mut self) {
        let b = self.cfg.buffer;
        self.cfg = NetCfg { buffer: b, ..Default::default() };
        self.blocked.clear();
    }
    fn id(&mut self) -> usize {
        self.next += 1;
        self.next
    }
    fn add(&mut self, kind: Kind, nonblock: bool) -> i32 {
        let o = self.id();
        self.objs.insert(o, Obj { refs: 1, nonblock, kind });
        self.new_fd(o)
    }
    fn new_fd(&mut self, o: usize) -> i32 {
        let mut fd = FD0;
        while self.fds.contains_key(&fd) {
            fd += 1;
        }
        self.fds.insert(fd, o);
        fd
    }
    pub(crate) fn add_file(&mut self, f: fsim::Open) -> i32 {
        self.add(Kind::File(f), false)
    }
    pub(crate) fn file(&mut self, fd: i32) -> Option<&mut fsim::Open> {
        let o = *self.fds.get(&fd)?;
        match &mut self.objs.get_mut(&o)?.kind {
            Kind::File(f) => Some(f),
            _ => None,
        }
    }
    fn blocked(&self, conn: usize, side: usize) -> bool {
        if self.blocked.is_empty() {
            return false;
        }
        let c = &self.conns[&conn];
        let ip = |o: usize| match self.objs.get(&o).map(|x| &x.kind) {
            Some(Kind::Sock(s)) => Some((*s.local.ip(), *s.peer.ip())),
            _ => None,
        };
        let pair = ip(c.obj[side]).or_else(|| ip(c.obj[1 - side]).map(|(a, b)| (b, a)));
        pair.is_some_and(|(a, b)| self.blocked.contains(&(a, b)))
    }
    pub fn next_event(&self) -> Option<u64> {
        let mut t = None;
        let mut min = |x: u64| t = Some(t.map_or(x, |y: u64| y.min(x)));
        for (id, c) in &self.conns {
            for s in 0..2 {
                if let Some((at, _)) = c.dirs[s].inflight.front() {
                    if !self.blocked(*id, s) {
                        min(*at);
                    }
                }
            }
        }
        for o in self.objs.values() {
            if let Kind::Sock(s) = &o.kind {
                match &s.sk {
                    Sk::Listening { queue } => {
                        if let Some((at, _)) = queue.front() {
                            if *at > 0 {
                                min(*at);
                            }
                        }
                    }
                    Sk::Connected { since, .. } if *since > 0 => min(*since),
                    _ => {}
                }
            }
        }
        t
    }
    /// Deliver what is due; returns the keys of the waiters to wake.
    pub fn advance(&mut self, now: u64) -> Vec<u64> {
        let ids: Vec<usize> = self.conns.keys().copied().collect();
        for id in ids {
            for s in 0..2 {
                if self.blocked(id, s) {
                    continue;
                }
                while self.conns[&id].dirs[s].inflight.front().is_some_and(|(at, _)| *at <= now) {
                    let (_, it) = self.conns.get_mut(&id).unwrap().dirs[s].inflight.pop_front().unwrap();
                    self.deliver(id, s, it);
                }
            }
        }
        let mut hit = vec![];
        for (k, o) in &mut self.objs {
            if let Kind::Sock(s) = &mut o.kind {
                match &mut s.sk {
                    Sk::Listening { queue } => {
                        for (at, _) in queue.iter_mut() {
                            if *at > 0 && *at <= now {
                                *at = 0;
                                hit.push(*k);
                            }
                        }
                    }
                    Sk::Connected { since, .. } if *since > 0 && *since <= now => {
                        *since = 0;
                        hit.push(*k);
                    }
                    _ => {}
                }
            }
        }
        for k in hit {
            self.touch(k);
        }
        std::mem::take(&mut self.wake).into_iter().map(|k| k as u64).collect()
    }
    fn deliver(&mut self, id: usize, s: usize, it: Item) {
        let c = self.conns.get_mut(&id).unwrap();
        let (a, b) = (c.obj[s], c.obj[1 - s]);
        if n_trace() {
            let d = match &it { Item::Data(d) => format!("{} bytes", d.len()), Item::Fin => "fin".into(), Item::Rst => "rst".into() };
            sim().event(format!("deliver {d} from {a} to {b}"));
        }
        match it {
            Item::Data(d) => {
                if c.dirs[s].closed {
                    c.dirs[s].outstanding -= d.len();
                    // nobody there: answer with a reset
                    c.dirs[1 - s].rst = true;
                    self.touch(a);
                } else {
                    c.dirs[s].rbuf.extend(d);
                    self.touch(b);
                }
            }
            Item::Fin => {
                c.dirs[s].fin = true;
                self.touch(b);
            }
            Item::Rst => {
                c.dirs[s].rst = true;
                c.dirs[1 - s].rst = true;
                self.touch(a);
                self.touch(b);
            }
        }
    }
    /// Something happened to an object: signal the epoll instances watching it and blocked callers.
    fn touch(&mut self, o: usize) {
        self.wake.insert(o);
        for (k, e) in self.objs.iter_mut() {
            if let Kind::Epoll(regs) = &mut e.kind {
                for (obj, r) in regs.values_mut() {
                    if *obj == o {
                        r.pending = true;
                        self.wake.insert(*k);
                    }
                }
            }
        }
    }
    fn ready(&self, o: usize) -> u32 {
        let Some(obj) = self.objs.get(&o) else { return 0 };
        let mut m = 0;
        match &obj.kind {
            Kind::Event(n) => {
                m |= libc::EPOLLOUT as u32;
                if *n > 0 {
                    m |= libc::EPOLLIN as u32;
                }
            }
            Kind::Sock(s) => match &s.sk {
                Sk::New => m |= (libc::EPOLLHUP | libc::EPOLLOUT) as u32 | if s.err != 0 { libc::EPOLLERR as u32 } else { 0 },
                Sk::Listening { queue } => {
                    if queue.iter().any(|(at, _)| *at == 0) {
                        m |= libc::EPOLLIN as u32;
                    }
                }
                Sk::Connected { conn, side, since } => {
                    if *since > 0 {
                        return 0;
                    }
                    let c = &self.conns[conn];
                    let (out, inn) = (&c.dirs[*side], &c.dirs[1 - *side]);
                    if !inn.rbuf.is_empty() || inn.fin || inn.rst {
                        m |= libc::EPOLLIN as u32;
                    }
                    if inn.fin {
                        m |= libc::EPOLLRDHUP as u32;
                    }
                    if (inn.fin && out.fin_sent) || inn.rst {
                        m |= (libc::EPOLLHUP | libc::EPOLLOUT) as u32;
                    }
                    if inn.rst {
                        m |= (libc::EPOLLERR | libc::EPOLLRDHUP) as u32;
                    }
                    if out.outstanding < out.buffer {
                        m |= libc::EPOLLOUT as u32;
                    }
                }
            },
            _ => m = (libc::EPOLLIN | libc::EPOLLOUT) as u32,
        }
        m
    }
    fn flush_wakes() {
        let w = std::mem::take(&mut net().wake);
        for k in w {
            sim().wake_device(k as u64);
        }
    }
    fn send(&mut self, conn: usize, side: usize, it: Item, delay: u64, now: u64) {
        let blocked = self.blocked(conn, side);
        let d = &mut self.conns.get_mut(&conn).unwrap().dirs[side];
        let at = (now + delay).max(d.last);
        d.last = at;
        if let Item::Data(v) = &it {
            d.outstanding += v.len();
        }
        if at <= now && d.inflight.is_empty() && !blocked {
            self.deliver(conn, side, it);
        } else {
            d.inflight.push_back((at, it));
        }
    }
    fn drop_ref(&mut self, fd: i32, now: u64) -> bool {
        let Some(o) = self.fds.remove(&fd) else { return false };
        for e in self.objs.values_mut() {
            if let Kind::Epoll(regs) = &mut e.kind {
                // an event registration goes away with its descriptor
                if regs.get(&fd).is_some_and(|(x, _)| *x == o) {
                    regs.remove(&fd);
                }
            }
        }
        let obj = self.objs.get_mut(&o).unwrap();
        obj.refs -= 1;
        if obj.refs > 0 {
            return true;
        }
        let obj = self.objs.remove(&o).unwrap();
        if let Kind::Sock(s) = obj.kind {
            match s.sk {
                Sk::Connected { conn, side, .. } => self.hangup(conn, side, s.linger0, now),
                Sk::Listening { queue } => {
                    for (_, so) in queue {
                        if let Some(Obj { kind: Kind::Sock(x), .. }) = self.objs.remove(&so) {
                            if let Sk::Connected { conn, side, .. } = x.sk {
                                self.hangup(conn, side, true, now);
                            }
                        }
                    }
                }
                Sk::New => {}
            }
        }
        true
    }
    fn hangup(&mut self, conn: usize, side: usize, hard: bool, now: u64) {
        let lat = self.delay();
        let c = self.conns.get_mut(&conn).unwrap();
        let unread = !c.dirs[1 - side].rbuf.is_empty();
        c.dirs[1 - side].closed = true;
        let n = c.dirs[1 - side].rbuf.len();
        c.dirs[1 - side].rbuf.clear();
        c.dirs[1 - side].outstanding -= n;
        let peer = c.obj[1 - side];
        if hard || unread {
            self.send(conn, side, Item::Rst, lat, now);
        } else if !self.conns[&conn].dirs[side].fin_sent {
            self.conns.get_mut(&conn).unwrap().dirs[side].fin_sent = true;
            self.send(conn, side, Item::Fin, lat, now);
        }
        self.touch(peer);
        let c = &self.conns[&conn];
        if c.dirs[0].closed && c.dirs[1].closed {
            self.conns.remove(&conn);
        }
    }
    fn delay(&mut self) -> u64 {
        let s = sim();
        let mut d = 0;
        if self.cfg.latency > 0 {
            d = s.choices.below(Stream::Fault, self.cfg.latency / US + 1) * US;
        }
        if self.cfg.stall_chance > 0 && s.choices.chance(Stream::Fault, self.cfg.stall_chance, 1000) {
            s.count("fault.net_stall", 1);
            d += s.choices.below(Stream::Fault, self.cfg.stall / US + 1) * US;
        }
        d
    }
    fn connect_pair(&mut self, a_local: SocketAddrV4, b_local: SocketAddrV4, since: u64) -> (usize, usize, usize) {
        let conn = self.id();
        let (a, b) = (self.id(), self.id());
        let buffer = self.cfg.buffer;
        let dir = || Dir { buffer, ..Default::default() };
        self.conns.insert(conn, Conn { dirs: [dir(), dir()], obj: [a, b] });
        let mk = |side, local, peer| Obj {
            refs: 1,
            nonblock: false,
            kind: Kind::Sock(Sock { sk: Sk::Connected { conn, side, since }, local, peer, bound: true, err: 0, rcvtimeo: 0, sndtimeo: 0, linger0: false }),
        };
        self.objs.insert(a, mk(0, a_local, b_local));
        self.objs.insert(b, mk(1, b_local, a_local));
        (conn, a, b)
    }
    fn port(&mut self) -> u16 {
        self.next_port = self.next_port.wrapping_add(1);
        40000 + self.next_port % 20000
    }
    fn listener_at(&self, a: SocketAddrV4) -> Option<usize> {
        self.objs.iter().find_map(|(k, o)| match &o.kind {
            Kind::Sock(s) if matches!(s.sk, Sk::Listening { .. }) && s.local.port() == a.port() && (s.local.ip() == a.ip() || s.local.ip().is_unspecified()) => Some(*k),
            _ => None,
        })
    }
}

// ------------------------------------------------------------------------ interface for scenarios
pub fn set_cfg(c: NetCfg) {
    let _g = atomic_guard();
    net().cfg = c;
}
pub fn cfg() -> NetCfg {
    net().cfg.clone()
}
/// Draw network behaviour for this run.
pub fn random_cfg() {
    let w = |n| choose(Stream::Fault, n);
    let c = NetCfg {
        latency: [0, 0, 200 * US, 20 * MS, 300 * MS][w(5) as usize],
        split: [0, 50, 500][w(3) as usize],
        short_write: [0, 0, 50, 400][w(4) as usize],
        short_read: [0, 0, 50, 400][w(4) as usize],
        stall_chance: [0, 0, 20][w(3) as usize],
        stall: 3 * SEC,
        buffer: [64 * 1024, 64 * 1024, 4096, 700, 100][w(5) as usize],
        reset: 0,
    };
    set_cfg(c);
}
/// Hold back (or release) all data from `a` to `b`.
pub fn block(a: Ipv4Addr, b: Ipv4Addr, on: bool) {
    let _g = atomic_guard();
    if on {
        net().blocked.insert((a, b));
    } else {
        net().blocked.remove(&(a, b));
    }
    let now = sim().now;
    net().advance_and_wake(now);
}
/// Connections between two addresses (or all) break at once. Returns how many.
pub fn break_connections(pair: Option<(Ipv4Addr, Ipv4Addr)>) -> usize {
    let _g = atomic_guard();
    let n = net();
    let ids: Vec<usize> = n.conns.keys().copied().collect();
    let mut k = 0;
    for id in ids {
        let c = &n.conns[&id];
        // Socket pairs have no port and are not part of the network.
        let hit = c.obj.iter().any(|o| match n.objs.get(o).map(|x| &x.kind) {
            Some(Kind::Sock(s)) => s.local.port() != 0 && pair.is_none_or(|p| (*s.local.ip(), *s.peer.ip()) == p),
            _ => false,
        });
        if hit {
            k += 1;
            for s in 0..2 {
                n.conns.get_mut(&id).unwrap().dirs[s].inflight.clear();
            }
            n.deliver(id, 0, Item::Rst);
        }
    }
    let now = sim().now;
    net().advance_and_wake(now);
    k
}
/// The machine with this address goes down: nobody listens there any more, and its connections are reset.
pub fn crash(ip: Ipv4Addr) {
    let _g = atomic_guard();
    let n = net();
    for o in n.objs.values_mut() {
        if let Kind::Sock(s) = &mut o.kind {
            if *s.local.ip() == ip && matches!(s.sk, Sk::Listening { .. }) {
                s.sk = Sk::New;
                s.bound = false;
            }
        }
    }
    let ids: Vec<usize> = n.conns.keys().copied().collect();
    for id in ids {
        let hit = n.conns[&id].obj.iter().any(|o| match n.objs.get(o).map(|x| &x.kind) {
            Some(Kind::Sock(s)) => s.local.port() != 0 && (*s.local.ip() == ip || *s.peer.ip() == ip),
            _ => false,
        });
        if hit {
            n.deliver(id, 0, Item::Rst);
        }
    }
    let now = sim().now;
    net().advance_and_wake(now);
}
/// Outgoing connections of the calling thread and its descendants come from this address.
pub fn set_local_ip(ip: Ipv4Addr) {
    let t = current_thread();
    net().local_ip.insert(t, ip);
}
/// Addresses somebody listens on.
pub fn listening() -> Vec<SocketAddrV4> {
    net().objs.values().filter_map(|o| match &o.kind { Kind::Sock(s) if matches!(s.sk, Sk::Listening { .. }) => Some(s.local), _ => None }).collect()
}
/// Number of sockets that are open.
pub fn open_sockets() -> usize {
    net().objs.values().filter(|o| matches!(o.kind, Kind::Sock(_))).count()
}
impl Net {
    fn advance_and_wake(&mut self, now: u64) {
        for k in self.advance(now) {
            sim().wake_device(k);
        }
    }
}

// ------------------------------------------------------------------------------------ system calls
pub(crate) fn e(errno: i32) -> isize {
    set_errno(errno) as isize
}
fn raw(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, ee: usize, f: usize) -> isize {
    let r = unsafe { raw_syscall(n, a, b, c, d, ee, f) };
    if r < 0 && r > -4096 { e(-r as i32) } else { r }
}
fn is_sim_fd(fd: i32) -> bool {
    in_sim() && fd >= FD0 && net().fds.contains_key(&fd)
}
fn obj_of(fd: i32) -> usize {
    net().fds[&fd]
}
fn sock(fd: i32) -> Option<&'static mut Sock> {
    let o = obj_of(fd);
    match &mut net().objs.get_mut(&o).unwrap().kind {
        Kind::Sock(s) => Some(s),
        _ => None,
    }
}
fn nonblock(fd: i32) -> bool {
    net().objs[&obj_of(fd)].nonblock
}
fn tick() {
    let s = sim();
    s.now += 300 * NS;
    let now = s.now;
    net().advance_and_wake(now);
}
unsafe fn get_addr(a: *const sockaddr) -> Option<SocketAddrV4> {
    unsafe {
        if (*a).sa_family as i32 != libc::AF_INET {
            return None;
        }
        let s = *(a as *const libc::sockaddr_in);
        Some(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr)), u16::from_be(s.sin_port)))
    }
}
unsafe fn put_addr(a: SocketAddrV4, out: *mut sockaddr, len: *mut socklen_t) {
    if out.is_null() {
        return;
    }
    unsafe {
        let mut s: libc::sockaddr_in = std::mem::zeroed();
        s.sin_family = libc::AF_INET as u16;
        s.sin_port = a.port().to_be();
        s.sin_addr.s_addr = u32::from(*a.ip()).to_be();
        let n = (*len as usize).min(std::mem::size_of_val(&s));
        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, n);
        *len = std::mem::size_of_val(&s) as socklen_t;
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    if !in_sim() {
        return raw(libc::SYS_socket, domain as usize, ty as usize, proto as usize, 0, 0, 0) as c_int;
    }
    let _g = atomic_guard();
    if domain != libc::AF_INET || ty & 0xf != libc::SOCK_STREAM {
        return e(libc::EAFNOSUPPORT) as c_int;
    }
    let any = SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0);
    let s = Sock { sk: Sk::New, local: any, peer: any, bound: false, err: 0, rcvtimeo: 0, sndtimeo: 0, linger0: false };
    net().add(Kind::Sock(s), ty & libc::SOCK_NONBLOCK != 0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn socketpair(domain: c_int, ty: c_int, proto: c_int, out: *mut c_int) -> c_int {
    if !in_sim() {
        return raw(libc::SYS_socketpair, domain as usize, ty as usize, proto as usize, out as usize, 0, 0) as c_int;
    }
    let _g = atomic_guard();
    let any = SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0);
    let n = net();
    let (_, a, b) = n.connect_pair(any, any, 0);
    for o in [a, b] {
        n.objs.get_mut(&o).unwrap().nonblock = ty & libc::SOCK_NONBLOCK != 0;
    }
    let (fa, fb) = (n.new_fd(a), n.new_fd(b));
    unsafe {
        *out = fa;
        *out.add(1) = fb;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_bind, fd as usize, addr as usize, len as usize, 0, 0, 0) as c_int;
    }
    let _g = atomic_guard();
    let Some(mut a) = (unsafe { get_addr(addr) }) else { return e(libc::EINVAL) as c_int };
    if a.port() == 0 {
        a.set_port(net().port());
    } else if net().objs.values().any(|o| matches!(&o.kind, Kind::Sock(s) if matches!(s.sk, Sk::Listening{..}) && s.local.port() == a.port() && (s.local.ip() == a.ip() || s.local.ip().is_unspecified() || a.ip().is_unspecified()))) {
        return e(libc::EADDRINUSE) as c_int;
    }
    let s = sock(fd).unwrap();
    s.local = a;
    s.bound = true;
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn listen(fd: c_int, backlog: c_int) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_listen, fd as usize, backlog as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = atomic_guard();
    let a = sock(fd).unwrap().local;
    if net().listener_at(a).is_some() {
        return e(libc::EADDRINUSE) as c_int;
    }
    sock(fd).unwrap().sk = Sk::Listening { queue: VecDeque::new() };
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_connect, fd as usize, addr as usize, len as usize, 0, 0, 0) as c_int;
    }
    let g = atomic_guard();
    tick();
    let Some(a) = (unsafe { get_addr(addr) }) else { return e(libc::ECONNREFUSED) as c_int };
    let n = net();
    let Some(l) = n.listener_at(a) else {
        return e(libc::ECONNREFUSED) as c_int;
    };
    let local = {
        let t = current_thread();
        let ip = n.local_ip.get(&t).copied().unwrap_or(*a.ip());
        let p = n.port();
        let s = sock(fd).unwrap();
        if s.bound && !s.local.ip().is_unspecified() { s.local } else { SocketAddrV4::new(ip, p) }
    };
    let lat = n.delay();
    let at = if lat == 0 { 0 } else { sim().now + lat };
    let o = obj_of(fd);
    let (conn, tmp, b) = n.connect_pair(local, a, at);
    // the pair's first end becomes this descriptor's socket
    n.objs.remove(&tmp);
    n.conns.get_mut(&conn).unwrap().obj[0] = o;
    let s = sock(fd).unwrap();
    s.sk = Sk::Connected { conn, side: 0, since: at };
    s.local = local;
    s.peer = a;
    if let Kind::Sock(Sock { sk: Sk::Connected { since, .. }, .. }) = &mut n.objs.get_mut(&b).unwrap().kind {
        *since = 0;
    }
    if let Kind::Sock(Sock { sk: Sk::Listening { queue }, .. }) = &mut n.objs.get_mut(&l).unwrap().kind {
        queue.push_back((at, b));
    }
    n.touch(l);
    n.touch(o);
    Net::flush_wakes();
    if at == 0 {
        return 0;
    }
    if nonblock(fd) {
        return e(libc::EINPROGRESS) as c_int;
    }
    drop(g);
    device_wait(o as u64, Some(at));
    let _g = atomic_guard();
    tick();
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn accept4(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t, flags: c_int) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_accept4, fd as usize, addr as usize, len as usize, flags as usize, 0, 0) as c_int;
    }
    loop {
        let g = atomic_guard();
        tick();
        let o = obj_of(fd);
        let got = match &mut sock(fd).unwrap().sk {
            Sk::Listening { queue } => queue.iter().position(|(at, _)| *at == 0).map(|i| queue.remove(i).unwrap().1),
            _ => return e(libc::EINVAL) as c_int,
        };
        if let Some(so) = got {
            let n = net();
            n.objs.get_mut(&so).unwrap().nonblock = flags & libc::SOCK_NONBLOCK != 0;
            let nfd = n.new_fd(so);
            unsafe { put_addr(sock(nfd).unwrap().peer, addr, len) };
            return nfd;
        }
        if nonblock(fd) {
            return e(libc::EAGAIN) as c_int;
        }
        drop(g);
        device_wait(o as u64, None);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn accept(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    unsafe { accept4(fd, addr, len, 0) }
}
/// Take what can be read. None: would block.
unsafe fn do_read(fd: c_int, buf: *mut u8, len: usize, peek: bool) -> Option<isize> {
    let n = net();
    let o = obj_of(fd);
    match &mut n.objs.get_mut(&o).unwrap().kind {
        Kind::Event(c) => {
            if *c == 0 {
                return None;
            }
            unsafe { *(buf as *mut u64) = *c };
            *c = 0;
            Some(8)
        }
        Kind::File(_) => Some(fsim::read(fd, buf, len)),
        Kind::Epoll(_) => Some(e(libc::EINVAL)),
        Kind::Sock(s) => {
            let Sk::Connected { conn, side, since } = s.sk else { return Some(e(libc::ENOTCONN)) };
            if since > 0 {
                return None;
            }
            if len == 0 {
                return Some(0);
            }
            let short = n.cfg.short_read;
            let c = n.conns.get_mut(&conn).unwrap();
            let d = &mut c.dirs[1 - side];
            if d.rst && !d.rst_reported {
                d.rst_reported = true;
                d.rbuf.clear();
                return Some(e(libc::ECONNRESET));
            }
            if d.rbuf.is_empty() {
                return if d.fin || d.rst { Some(0) } else { None };
            }
            let mut k = len.min(d.rbuf.len());
            let all = k;
            if k > 1 && short > 0 && sim().choices.chance(Stream::Fault, short, 1000) {
                sim().count("fault.net_short_read", 1);
                k = 1 + sim().choices.below(Stream::Fault, k as u64 - 1) as usize;
            }
            for i in 0..k {
                unsafe { *buf.add(i) = d.rbuf[i] };
            }
            if !peek {
                d.rbuf.drain(..k);
                d.outstanding -= k;
                let a = c.obj[1 - side];
                n.touch(a);
                if k < all {
                    // A short read means "drained" to an edge-triggered reader: the rest counts as
                    // having arrived right afterwards.
                    n.touch(o);
                }
                Net::flush_wakes();
            }
            Some(k as isize)
        }
    }
}
unsafe fn do_write(fd: c_int, buf: *const u8, len: usize) -> Option<isize> {
    let n = net();
    let o = obj_of(fd);
    let now = sim().now;
    match &mut n.objs.get_mut(&o).unwrap().kind {
        Kind::Event(c) => {
            *c += unsafe { *(buf as *const u64) };
            n.touch(o);
            Net::flush_wakes();
            Some(8)
        }
        Kind::File(_) => Some(fsim::write(fd, buf, len)),
        Kind::Epoll(_) => Some(e(libc::EINVAL)),
        Kind::Sock(s) => {
            let Sk::Connected { conn, side, since } = s.sk else { return Some(e(libc::ENOTCONN)) };
            if since > 0 {
                return None;
            }
            let c = n.conns.get_mut(&conn).unwrap();
            if c.dirs[side].fin_sent {
                return Some(e(libc::EPIPE));
            }
            let inn = &mut c.dirs[1 - side];
            if inn.rst {
                let first = !inn.rst_reported;
                inn.rst_reported = true;
                return Some(e(if first { libc::ECONNRESET } else { libc::EPIPE }));
            }
            let d = &c.dirs[side];
            let room = d.buffer.saturating_sub(d.outstanding);
            if room == 0 && len > 0 {
                return None;
            }
            let mut k = len.min(room);
            let cfg = n.cfg.clone();
            if cfg.reset > 0 && sim().choices.chance(Stream::Fault, cfg.reset, 1000) {
                sim().count("fault.net_reset", 1);
                n.deliver(conn, side, Item::Rst);
                Net::flush_wakes();
                return Some(e(libc::ECONNRESET));
            }
            // (real sockets take part of a small write only when they are full)
            if k >= 64 && cfg.short_write > 0 && sim().choices.chance(Stream::Fault, cfg.short_write, 1000) {
                sim().count("fault.net_short_write", 1);
                k = 1 + sim().choices.below(Stream::Fault, k as u64 - 1) as usize;
            }
            let data = unsafe { std::slice::from_raw_parts(buf, k) };
            let mut rest = data;
            while !rest.is_empty() {
                let mut piece = rest.len();
                if piece > 1 && cfg.split > 0 && sim().choices.chance(Stream::Fault, cfg.split, 1000) {
                    sim().count("fault.net_split", 1);
                    piece = 1 + sim().choices.below(Stream::Fault, piece as u64 - 1) as usize;
                }
                let delay = n.delay();
                n.send(conn, side, Item::Data(rest[..piece].to_vec()), delay, now);
                rest = &rest[piece..];
            }
            n.touch(o);
            Net::flush_wakes();
            Some(k as isize)
        }
    }
}
unsafe fn rw(fd: c_int, buf: *mut u8, len: usize, write: bool, flags: c_int) -> isize {
    let deadline = sock_timeout(fd, write);
    loop {
        let g = atomic_guard();
        if !net().fds.contains_key(&fd) {
            return e(libc::EBADF);
        }
        tick();
        let r = unsafe { if write { do_write(fd, buf, len) } else { do_read(fd, buf, len, flags & libc::MSG_PEEK != 0) } };
        if n_trace() {
            sim().event(format!("{} fd{fd} len {len} -> {r:?}", if write { "W" } else { "R" }));
        }
        if let Some(r) = r {
            return r;
        }
        if nonblock(fd) || flags & libc::MSG_DONTWAIT != 0 {
            return e(libc::EAGAIN);
        }
        let o = obj_of(fd);
        drop(g);
        if !device_wait(o as u64, deadline) {
            return e(libc::EAGAIN);
        }
    }
}
fn sock_timeout(fd: c_int, write: bool) -> Option<u64> {
    let _g = atomic_guard();
    let o = obj_of(fd);
    match &net().objs[&o].kind {
        Kind::Sock(s) => {
            let t = if write { s.sndtimeo } else { s.rcvtimeo };
            if t == 0 { None } else { Some(sim().now.saturating_add(t)) }
        }
        _ => None,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    if is_sim_fd(fd) {
        return unsafe { rw(fd, buf as *mut u8, len, false, 0) };
    }
    raw(libc::SYS_read, fd as usize, buf as usize, len, 0, 0, 0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> isize {
    if is_sim_fd(fd) {
        return unsafe { rw(fd, buf as *mut u8, len, false, flags) };
    }
    raw(libc::SYS_recvfrom, fd as usize, buf as usize, len, flags as usize, 0, 0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    if is_sim_fd(fd) {
        return unsafe { rw(fd, buf as *mut u8, len, true, 0) };
    }
    raw(libc::SYS_write, fd as usize, buf as usize, len, 0, 0, 0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: usize, flags: c_int) -> isize {
    if is_sim_fd(fd) {
        return unsafe { rw(fd, buf as *mut u8, len, true, flags) };
    }
    raw(libc::SYS_sendto, fd as usize, buf as usize, len, flags as usize, 0, 0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0);
    }
    let mut all = vec![];
    for i in 0..n as usize {
        let v = unsafe { *iov.add(i) };
        if v.iov_len > 0 {
            all.extend_from_slice(unsafe { std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len) });
        }
    }
    unsafe { rw(fd, all.as_mut_ptr(), all.len(), true, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0);
    }
    for i in 0..n as usize {
        let v = unsafe { *iov.add(i) };
        if v.iov_len > 0 {
            return unsafe { rw(fd, v.iov_base as *mut u8, v.iov_len, false, 0) };
        }
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = atomic_guard();
    tick();
    let Some(s) = sock(fd) else { return e(libc::ENOTSOCK) as c_int };
    let Sk::Connected { conn, side, .. } = s.sk else { return e(libc::ENOTCONN) as c_int };
    let n = net();
    if n.conns[&conn].dirs[1 - side].rst {
        return e(libc::ENOTCONN) as c_int;
    }
    if how != libc::SHUT_RD && !n.conns[&conn].dirs[side].fin_sent {
        let d = n.delay();
        n.conns.get_mut(&conn).unwrap().dirs[side].fin_sent = true;
        let now = sim().now;
        n.send(conn, side, Item::Fin, d, now);
    }
    let o = obj_of(fd);
    n.touch(o);
    Net::flush_wakes();
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        let _g = atomic_guard();
        tick();
        let now = sim().now;
        net().drop_ref(fd, now);
        Net::flush_wakes();
        return 0;
    }
    raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int
}
fn dup_fd(fd: c_int) -> c_int {
    let _g = atomic_guard();
    let n = net();
    let o = n.fds[&fd];
    n.objs.get_mut(&o).unwrap().refs += 1;
    n.new_fd(o)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        return dup_fd(fd);
    }
    raw(libc::SYS_dup, fd as usize, 0, 0, 0, 0, 0) as c_int
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int;
    }
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => dup_fd(fd),
        libc::F_GETFL => {
            if nonblock(fd) { libc::O_NONBLOCK | libc::O_RDWR } else { libc::O_RDWR }
        }
        libc::F_SETFL => {
            let o = obj_of(fd);
            net().objs.get_mut(&o).unwrap().nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            0
        }
        _ => 0,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    unsafe { do_fcntl(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    unsafe { do_fcntl(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0) as c_int;
    }
    match req {
        libc::FIONBIO => {
            let o = obj_of(fd);
            net().objs.get_mut(&o).unwrap().nonblock = unsafe { *(arg as *const c_int) } != 0;
            0
        }
        _ => e(libc::ENOTTY) as c_int,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_setsockopt, fd as usize, level as usize, name as usize, val as usize, len as usize, 0) as c_int;
    }
    let Some(s) = sock(fd) else { return e(libc::ENOTSOCK) as c_int };
    if level == libc::SOL_SOCKET {
        match name {
            libc::SO_RCVTIMEO | libc::SO_SNDTIMEO => {
                let tv = unsafe { *(val as *const libc::timeval) };
                let t = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * US;
                if name == libc::SO_RCVTIMEO {
                    s.rcvtimeo = t;
                } else {
                    s.sndtimeo = t;
                }
            }
            libc::SO_LINGER => {
                let l = unsafe { *(val as *const libc::linger) };
                s.linger0 = l.l_onoff != 0 && l.l_linger == 0;
            }
            _ => {}
        }
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_getsockopt, fd as usize, level as usize, name as usize, val as usize, len as usize, 0) as c_int;
    }
    let Some(s) = sock(fd) else { return e(libc::ENOTSOCK) as c_int };
    unsafe {
        std::ptr::write_bytes(val as *mut u8, 0, *len as usize);
        if level == libc::SOL_SOCKET && name == libc::SO_ERROR && *len >= 4 {
            *(val as *mut c_int) = s.err;
            s.err = 0;
        }
        if level == libc::SOL_SOCKET && name == libc::SO_TYPE && *len >= 4 {
            *(val as *mut c_int) = libc::SOCK_STREAM;
        }
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getsockname(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_getsockname, fd as usize, addr as usize, len as usize, 0, 0, 0) as c_int;
    }
    let Some(s) = sock(fd) else { return e(libc::ENOTSOCK) as c_int };
    unsafe { put_addr(s.local, addr, len) };
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if !is_sim_fd(fd) {
        return raw(libc::SYS_getpeername, fd as usize, addr as usize, len as usize, 0, 0, 0) as c_int;
    }
    let Some(s) = sock(fd) else { return e(libc::ENOTSOCK) as c_int };
    if !matches!(s.sk, Sk::Connected { since: 0, .. }) {
        return e(libc::ENOTCONN) as c_int;
    }
    unsafe { put_addr(s.peer, addr, len) };
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn eventfd(init: u32, flags: c_int) -> c_int {
    if !in_sim() {
        return raw(libc::SYS_eventfd2, init as usize, flags as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = atomic_guard();
    net().add(Kind::Event(init as u64), flags & libc::EFD_NONBLOCK != 0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !in_sim() {
        return raw(libc::SYS_epoll_create1, flags as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _g = atomic_guard();
    net().add(Kind::Epoll(BTreeMap::new()), false)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if !is_sim_fd(ep) {
        return raw(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0) as c_int;
    }
    let _g = atomic_guard();
    if !is_sim_fd(fd) {
        return e(libc::EPERM) as c_int;
    }
    let o = obj_of(fd);
    let eo = obj_of(ep);
    let Kind::Epoll(regs) = &mut net().objs.get_mut(&eo).unwrap().kind else { return e(libc::EINVAL) as c_int };
    match op {
        libc::EPOLL_CTL_ADD => {
            if regs.contains_key(&fd) {
                return e(libc::EEXIST) as c_int;
            }
            let (events, data) = unsafe { ((*ev).events, (*ev).u64) };
            regs.insert(fd, (o, Reg { events, data, pending: true }));
        }
        libc::EPOLL_CTL_MOD => {
            let Some((_, r)) = regs.get_mut(&fd) else { return e(libc::ENOENT) as c_int };
            unsafe {
                r.events = (*ev).events;
                r.data = (*ev).u64;
            }
            r.pending = true;
        }
        _ => {
            if regs.remove(&fd).is_none() {
                return e(libc::ENOENT) as c_int;
            }
        }
    }
    net().wake.insert(eo);
    Net::flush_wakes();
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_wait(ep: c_int, out: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    if !is_sim_fd(ep) {
        return raw(libc::SYS_epoll_wait, ep as usize, out as usize, max as usize, timeout as usize, 0, 0) as c_int;
    }
    let deadline = if timeout > 0 { Some(sim().now + timeout as u64 * MS) } else { None };
    let mut expired = timeout == 0;
    loop {
        let g = atomic_guard();
        tick();
        let eo = obj_of(ep);
        let n = net();
        let Kind::Epoll(regs) = &n.objs[&eo].kind else { return e(libc::EINVAL) as c_int };
        let always = (libc::EPOLLERR | libc::EPOLLHUP) as u32;
        let mut hits: Vec<(i32, u32)> = regs
            .iter()
            .filter(|(_, (_, r))| r.pending || r.events & libc::EPOLLET as u32 == 0)
            .map(|(fd, (o, r))| (*fd, n.ready(*o) & (r.events | always)))
            .filter(|(_, m)| *m != 0)
            .collect();
        if hits.len() > 1 {
            let k = sim().choices.below(Stream::Sched, hits.len() as u64) as usize;
            hits.rotate_left(k);
        }
        hits.truncate(max as usize);
        let Kind::Epoll(regs) = &mut net().objs.get_mut(&eo).unwrap().kind else { unreachable!() };
        for (i, (fd, m)) in hits.iter().enumerate() {
            let r = &mut regs.get_mut(fd).unwrap().1;
            r.pending = false;
            if n_trace() {
                sim().event(format!("epoll fd{fd} {m:x}"));
            }
            unsafe { *out.add(i) = libc::epoll_event { events: *m, u64: r.data } };
        }
        drop(g);
        if !hits.is_empty() || expired {
            if hits.is_empty() {
                yield_point();
            }
            return hits.len() as c_int;
        }
        if !device_wait(eo as u64, deadline) {
            expired = true;
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let any_sim = (0..n as usize).any(|i| is_sim_fd(unsafe { (*p.add(i)).fd }));
    if !any_sim {
        return raw(libc::SYS_poll, p as usize, n as usize, timeout as usize, 0, 0, 0) as c_int;
    }
    let deadline = if timeout >= 0 { sim().now + timeout as u64 * MS } else { FOREVER };
    loop {
        let g = atomic_guard();
        tick();
        let mut k = 0;
        for i in 0..n as usize {
            let q = unsafe { &mut *p.add(i) };
            q.revents = 0;
            if is_sim_fd(q.fd) {
                let m = net().ready(obj_of(q.fd));
                q.revents = (m & (q.events as u32 | (libc::EPOLLERR | libc::EPOLLHUP) as u32)) as i16;
                k += (q.revents != 0) as c_int;
            }
        }
        let now = sim().now;
        drop(g);
        if k > 0 || now >= deadline {
            return k;
        }
        sleep_ns(MS.min(deadline - now));
    }
}

/// Debugging: record every read and write (SIM_NET_TRACE).
static TRACE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
pub(crate) fn init_trace() {
    TRACE.get_or_init(|| std::env::var_os("SIM_NET_TRACE").is_some());
}
fn n_trace() -> bool {
    TRACE.get().copied().unwrap_or(false)
}
