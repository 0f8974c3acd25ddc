//! A simulated file system for everything below `/simfs/`: contents survive the simulated death of a
//! process (threads that stop for ever at a file operation), operations can fail.
use crate::choice::Stream;
use crate::net::{FD0, e};
use crate::rt::*;
use libc::{c_char, c_int, c_void};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CStr;

pub const ROOT: &str = "/simfs";
#[derive(Clone, Default)]
pub struct Node {
    pub data: Vec<u8>,
    pub mode: u32,
}
pub(crate) struct Open {
    ino: u64,
    pos: usize,
    append: bool,
    writable: bool,
}
#[derive(Default)]
pub struct FsState {
    names: BTreeMap<String, u64>,
    nodes: BTreeMap<u64, Node>,
    dirs: BTreeSet<String>,
    next: u64,
    /// thread -> operations it may still make before it dies
    doomed: BTreeMap<usize, u64>,
    /// thread -> of 1000 operations, how many fail
    failing: BTreeMap<usize, u64>,
    pub ops: u64,
    pub failed: u64,
}
fn fs() -> &'static mut FsState {
    &mut sim().fs
}
fn mine(p: *const c_char) -> Option<String> {
    if !in_sim() || p.is_null() {
        return None;
    }
    let s = unsafe { CStr::from_ptr(p) }.to_str().ok()?;
    (s == ROOT || s.starts_with("/simfs/")).then(|| s.trim_end_matches('/').to_string())
}
fn hidden(p: *const c_char) -> bool {
    in_sim() && !p.is_null() && unsafe { CStr::from_ptr(p) }.to_bytes().starts_with(b"/proc/") | unsafe { CStr::from_ptr(p) }.to_bytes().starts_with(b"/sys/")
}
/// Every file operation passes here first: it may be the last one of its thread, or fail.
fn op(what: &str, errs: &[i32]) -> Result<(), i32> {
    let t = current_thread();
    let f = fs();
    f.ops += 1;
    if let Some(n) = f.doomed.get_mut(&t) {
        if *n == 0 {
            count("fault.process_killed", 1);
            event(format!("killed before {what}"));
            loop {
                sleep_ns(u64::MAX / 4);
            }
        }
        *n -= 1;
    }
    yield_point();
    if let Some(p) = fs().failing.get(&t).copied() {
        if chance(Stream::Fault, p, 1000) {
            let er = errs[choose(Stream::Fault, errs.len() as u64) as usize];
            count("fault.file_error", 1);
            event(format!("{what} fails with {er}"));
            fs().failed += 1;
            return Err(er);
        }
    }
    event(what.to_string());
    Ok(())
}
// ------------------------------------------------------------------------ interface for scenarios
/// The calling thread dies at its n-th file operation from now.
pub fn doom_thread(n: Option<u64>) {
    let t = current_thread();
    let f = fs();
    match n {
        Some(n) => f.doomed.insert(t, n),
        None => f.doomed.remove(&t),
    };
}
pub fn fail_thread(per_mille: u64) {
    let t = current_thread();
    fs().failing.insert(t, per_mille);
}
pub fn failed_ops() -> u64 {
    fs().failed
}
pub fn total_ops() -> u64 {
    fs().ops
}
pub fn mkdir_all(p: &str) {
    let mut s = String::new();
    for c in p.split('/').filter(|c| !c.is_empty()) {
        s = format!("{s}/{c}");
        fs().dirs.insert(s.clone());
    }
}
pub fn put(p: &str, data: &[u8], mode: u32) {
    let f = fs();
    f.next += 1;
    let i = f.next;
    f.nodes.insert(i, Node { data: data.to_vec(), mode });
    f.names.insert(p.into(), i);
}
pub fn get(p: &str) -> Option<Node> {
    let f = fs();
    f.names.get(p).map(|i| f.nodes[i].clone())
}
pub fn list() -> Vec<String> {
    fs().names.keys().cloned().collect()
}
// ------------------------------------------------------------------------------------ system calls
pub(crate) fn read(fd: c_int, buf: *mut u8, len: usize) -> isize {
    let s = sim();
    let o = s.devices.file(fd).unwrap();
    let d = &s.fs.nodes[&o.ino].data;
    let n = len.min(d.len().saturating_sub(o.pos));
    unsafe { std::ptr::copy_nonoverlapping(d[o.pos.min(d.len())..].as_ptr(), buf, n) };
    o.pos += n;
    n as isize
}
pub(crate) fn write(fd: c_int, buf: *const u8, len: usize) -> isize {
    if let Err(er) = unguarded(|| op("write", &[libc::ENOSPC, libc::EIO])) {
        return e(er);
    }
    let mut n = len;
    let t = current_thread();
    let split = fs().doomed.contains_key(&t) || fs().failing.contains_key(&t);
    if len > 1 && split && chance(Stream::Fault, 1, 3) {
        count("fault.short_write", 1);
        n = 1 + choose(Stream::Fault, len as u64 - 1) as usize;
    }
    let s = sim();
    let o = s.devices.file(fd).unwrap();
    if !o.writable {
        return e(libc::EBADF);
    }
    let d = &mut s.fs.nodes.get_mut(&o.ino).unwrap().data;
    if o.append {
        o.pos = d.len();
    }
    if d.len() < o.pos + n {
        d.resize(o.pos + n, 0);
    }
    d[o.pos..o.pos + n].copy_from_slice(unsafe { std::slice::from_raw_parts(buf, n) });
    o.pos += n;
    n as isize
}
fn do_open(p: String, flags: c_int, mode: u32) -> c_int {
    let wr = flags & libc::O_ACCMODE != libc::O_RDONLY;
    if wr {
        if let Err(er) = op(&format!("open {p} for writing"), &[libc::EACCES, libc::ENOSPC, libc::EIO]) {
            return e(er) as c_int;
        }
    } else {
        yield_point();
    }
    let _g = atomic_guard();
    let f = fs();
    if f.dirs.contains(&p) {
        return e(libc::EISDIR) as c_int;
    }
    let parent = p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
    if !f.dirs.contains(&parent) && parent != ROOT {
        return e(libc::ENOENT) as c_int;
    }
    let ino = match f.names.get(&p) {
        Some(_) if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 => return e(libc::EEXIST) as c_int,
        Some(i) => *i,
        None if flags & libc::O_CREAT != 0 => {
            f.next += 1;
            let i = f.next;
            f.nodes.insert(i, Node { data: vec![], mode: mode & !0o022 });
            f.names.insert(p, i);
            i
        }
        None => return e(libc::ENOENT) as c_int,
    };
    if flags & libc::O_TRUNC != 0 && wr {
        f.nodes.get_mut(&ino).unwrap().data.clear();
    }
    sim().devices.add_file(Open { ino, pos: 0, append: flags & libc::O_APPEND != 0, writable: wr })
}
unsafe fn any_open(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    if let Some(s) = mine(p) {
        return do_open(s, flags, mode);
    }
    if hidden(p) {
        return e(libc::ENOENT) as c_int;
    }
    let r = unsafe { raw_syscall(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0) };
    if r < 0 { e(-r as i32) as c_int } else { r as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    unsafe { any_open(p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    unsafe { any_open(p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (Some(x), Some(y)) = (mine(a), mine(b)) else {
        let r = unsafe { raw_syscall(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0) };
        return if r < 0 { e(-r as i32) as c_int } else { 0 };
    };
    if let Err(er) = op(&format!("rename {x} to {y}"), &[libc::EACCES, libc::EIO]) {
        return e(er) as c_int;
    }
    let f = fs();
    let Some(i) = f.names.get(&x).copied() else { return e(libc::ENOENT) as c_int };
    if f.dirs.contains(&y) {
        return e(libc::EISDIR) as c_int;
    }
    f.names.remove(&x);
    f.names.insert(y, i);
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let Some(x) = mine(p) else {
        let r = unsafe { raw_syscall(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0) };
        return if r < 0 { e(-r as i32) as c_int } else { 0 };
    };
    if let Err(er) = op(&format!("unlink {x}"), &[libc::EACCES, libc::EIO]) {
        return e(er) as c_int;
    }
    if fs().names.remove(&x).is_none() { e(libc::ENOENT) as c_int } else { 0 }
}
fn sim_fd(fd: c_int) -> bool {
    in_sim() && fd >= FD0 && sim().devices.file(fd).is_some()
}
macro_rules! fd_noop {
    ($name:ident, $sys:expr) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(fd: c_int) -> c_int {
            if sim_fd(fd) {
                return match op(stringify!($name), &[libc::EIO]) {
                    Ok(()) => 0,
                    Err(er) => e(er) as c_int,
                };
            }
            let r = unsafe { raw_syscall($sys, fd as usize, 0, 0, 0, 0, 0) };
            if r < 0 { e(-r as i32) as c_int } else { r as c_int }
        }
    };
}
fd_noop!(fsync, libc::SYS_fsync);
fd_noop!(fdatasync, libc::SYS_fdatasync);
unsafe fn seek(fd: c_int, off: i64, whence: c_int) -> i64 {
    if sim_fd(fd) {
        let s = sim();
        let o = s.devices.file(fd).unwrap();
        let len = s.fs.nodes[&o.ino].data.len() as i64;
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => o.pos as i64,
            _ => len,
        };
        if base + off < 0 {
            return e(libc::EINVAL) as i64;
        }
        o.pos = (base + off) as usize;
        return o.pos as i64;
    }
    let r = unsafe { raw_syscall(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0) };
    if r < 0 { e(-r as i32) as i64 } else { r as i64 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    unsafe { seek(fd, off, whence) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    unsafe { seek(fd, off, whence) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if sim_fd(fd) {
        if let Err(er) = op("truncate", &[libc::EIO]) {
            return e(er) as c_int;
        }
        let s = sim();
        let o = s.devices.file(fd).unwrap();
        s.fs.nodes.get_mut(&o.ino).unwrap().data.resize(len as usize, 0);
        return 0;
    }
    let r = unsafe { raw_syscall(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) };
    if r < 0 { e(-r as i32) as c_int } else { 0 }
}
fn node_of(p: Option<String>, fd: c_int) -> Option<Option<(bool, Node)>> {
    if let Some(p) = p {
        let f = fs();
        if f.dirs.contains(&p) || p == ROOT {
            return Some(Some((true, Node { data: vec![], mode: 0o755 })));
        }
        return Some(f.names.get(&p).map(|i| (false, f.nodes[i].clone())));
    }
    if sim_fd(fd) {
        let s = sim();
        let i = s.devices.file(fd).unwrap().ino;
        return Some(Some((false, s.fs.nodes[&i].clone())));
    }
    None
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dirfd: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if in_sim() {
        let path = mine(p);
        let empty = p.is_null() || unsafe { *p } == 0;
        if path.is_some() || (empty && sim_fd(dirfd)) {
            let Some(Some((dir, n))) = node_of(path, dirfd) else { return e(libc::ENOENT) as c_int };
            unsafe {
                std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*out).stx_mask = libc::STATX_BASIC_STATS;
                (*out).stx_mode = (n.mode | if dir { libc::S_IFDIR } else { libc::S_IFREG }) as u16;
                (*out).stx_size = n.data.len() as u64;
                (*out).stx_nlink = 1;
            }
            return 0;
        }
    }
    let r = unsafe { raw_syscall(libc::SYS_statx, dirfd as usize, p as usize, flags as usize, mask as usize, out as usize, 0) };
    if r < 0 { e(-r as i32) as c_int } else { 0 }
}
unsafe fn fill_stat(out: *mut c_void, dir: bool, n: &Node) {
    unsafe {
        let o = out as *mut libc::stat64;
        std::ptr::write_bytes(o as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        (*o).st_mode = n.mode | if dir { libc::S_IFDIR } else { libc::S_IFREG };
        (*o).st_size = n.data.len() as i64;
        (*o).st_nlink = 1;
    }
}
macro_rules! path_stat {
    ($name:ident, $sys:expr) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(p: *const c_char, out: *mut c_void) -> c_int {
            if let Some(s) = mine(p) {
                let Some(Some((dir, n))) = node_of(Some(s), -1) else { return e(libc::ENOENT) as c_int };
                unsafe { fill_stat(out, dir, &n) };
                return 0;
            }
            let r = unsafe { raw_syscall($sys, p as usize, out as usize, 0, 0, 0, 0) };
            if r < 0 { e(-r as i32) as c_int } else { 0 }
        }
    };
}
path_stat!(stat64, libc::SYS_stat);
path_stat!(lstat64, libc::SYS_lstat);
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut c_void) -> c_int {
    if sim_fd(fd) {
        let Some(Some((dir, n))) = node_of(None, fd) else { return e(libc::EBADF) as c_int };
        unsafe { fill_stat(out, dir, &n) };
        return 0;
    }
    let r = unsafe { raw_syscall(libc::SYS_fstat, fd as usize, out as usize, 0, 0, 0, 0) };
    if r < 0 { e(-r as i32) as c_int } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: u32) -> c_int {
    if let Some(s) = mine(p) {
        if let Err(er) = op(&format!("mkdir {s}"), &[libc::EACCES, libc::ENOSPC]) {
            return e(er) as c_int;
        }
        return if fs().dirs.insert(s) { 0 } else { e(libc::EEXIST) as c_int };
    }
    let r = unsafe { raw_syscall(libc::SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0) };
    if r < 0 { e(-r as i32) as c_int } else { 0 }
}
fn chmod_to(n: Option<&mut Node>, mode: u32) -> c_int {
    match n {
        Some(n) => {
            n.mode = mode;
            0
        }
        None => e(libc::ENOENT) as c_int,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: u32) -> c_int {
    if let Some(s) = mine(p) {
        if let Err(er) = op("chmod", &[libc::EPERM]) {
            return e(er) as c_int;
        }
        let f = fs();
        let i = f.names.get(&s).copied();
        return chmod_to(i.and_then(|i| f.nodes.get_mut(&i)), mode);
    }
    let r = unsafe { raw_syscall(libc::SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0) };
    if r < 0 { e(-r as i32) as c_int } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: u32) -> c_int {
    if sim_fd(fd) {
        if let Err(er) = op("fchmod", &[libc::EPERM]) {
            return e(er) as c_int;
        }
        let s = sim();
        let i = s.devices.file(fd).unwrap().ino;
        return chmod_to(s.fs.nodes.get_mut(&i), mode);
    }
    let r = unsafe { raw_syscall(libc::SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0) };
    if r < 0 { e(-r as i32) as c_int } else { 0 }
}
