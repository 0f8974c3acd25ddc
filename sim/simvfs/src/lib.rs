//! Simulated disk under SQLite: a VFS whose files live in memory, with the difference between what was
//! written and what was synced kept, so that a crash can lose, keep or tear everything that was not synced.
//! Not instrumented (no preemption inside SQLite's own critical sections).
#![allow(non_snake_case)]
use detsim::*;
use rusqlite::ffi;
use std::collections::BTreeMap;
use std::ffi::{CStr, c_char, c_int, c_void};

const SECTOR: usize = 512;

#[derive(Clone, Debug)]
enum POp {
    Write(usize, Vec<u8>),
    Trunc(usize),
}
#[derive(Default, Clone)]
struct Inode {
    data: Vec<u8>,
    durable: Vec<u8>,
    pending: Vec<POp>,
    /// files created by SQLite as journals get their directory synced with their first sync
    dirsync: bool,
}
#[derive(Clone, Debug)]
enum DOp {
    Create(String, u64),
    Delete(String),
}
#[derive(Default)]
pub struct Disk {
    inodes: BTreeMap<u64, Inode>,
    names: BTreeMap<String, u64>,
    dnames: BTreeMap<String, u64>,
    dpending: Vec<DOp>,
    next_inode: u64,
    generation: u64,
    /// number of state changing operations so far
    pub ops: u64,
    crash_at: Option<u64>,
    pub crashed: bool,
    waiter: Option<std::thread::Thread>,
    pub faults: Faults,
    pub injected: u64,
    rnd: u64,
    pub open_files: i64,
}
#[derive(Default, Clone, Debug)]
pub struct Faults {
    pub read: (u64, u64),
    pub write: (u64, u64),
    pub sync: (u64, u64),
    pub meta: (u64, u64),
    /// no file may grow
    pub full: bool,
    /// every operation fails
    pub dead: bool,
    pub nomem: (u64, u64),
}
static DISK: SimCell<Option<Disk>> = SimCell::new(None);
pub fn disk<R>(f: impl FnOnce(&mut Disk) -> R) -> R {
    DISK.with(|d| f(d.get_or_insert_with(Disk::default)))
}

fn apply(data: &mut Vec<u8>, op: &POp) {
    match op {
        POp::Write(off, b) => {
            if data.len() < off + b.len() {
                data.resize(off + b.len(), 0);
            }
            data[*off..off + b.len()].copy_from_slice(b);
        }
        POp::Trunc(n) => data.resize(*n, 0),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CrashKind {
    /// the process dies, the operating system keeps everything written
    Process,
    /// power loss: unsynced data is lost, kept or torn
    Power,
}
impl Disk {
    fn sync_inode(&mut self, id: u64) {
        let dirsync = {
            let i = self.inodes.get_mut(&id).unwrap();
            for op in std::mem::take(&mut i.pending) {
                apply(&mut i.durable, &op);
            }
            debug_assert!(i.durable == i.data);
            std::mem::take(&mut i.dirsync)
        };
        if dirsync || self.dpending.iter().any(|d| matches!(d, DOp::Create(_, x) if *x == id)) {
            self.sync_dir();
        }
    }
    fn sync_dir(&mut self) {
        for d in std::mem::take(&mut self.dpending) {
            Self::dapply(&mut self.dnames, &d);
        }
    }
    fn dapply(n: &mut BTreeMap<String, u64>, d: &DOp) {
        match d {
            DOp::Create(s, i) => {
                n.insert(s.clone(), *i);
            }
            DOp::Delete(s) => {
                n.remove(s);
            }
        }
    }
    /// What a machine finds after the crash; the old handles are dead from here on.
    pub fn restart(&mut self, kind: CrashKind) {
        let mut lost = 0;
        let mut torn = 0;
        if kind == CrashKind::Power {
            // directory operations survive in order
            let keep = choose(Stream::Fault, self.dpending.len() as u64 + 1) as usize;
            for d in self.dpending.drain(..).take(keep) {
                Self::dapply(&mut self.dnames, &d);
            }
            self.names = self.dnames.clone();
            for i in self.inodes.values_mut() {
                if i.pending.is_empty() {
                    i.data = i.durable.clone();
                    continue;
                }
                let mode = choose(Stream::Fault, 4);
                let n = i.pending.len();
                let cut = if mode == 2 { choose(Stream::Fault, n as u64 + 1) as usize } else { n };
                for (k, op) in std::mem::take(&mut i.pending).into_iter().enumerate() {
                    let keep = match mode {
                        0 => false,
                        1 => true,
                        2 => k < cut,
                        _ => chance(Stream::Fault, 1, 2),
                    };
                    if !keep {
                        lost += 1;
                        continue;
                    }
                    match op {
                        POp::Write(off, b) if mode == 3 && b.len() > SECTOR && chance(Stream::Fault, 1, 3) => {
                            torn += 1;
                            let mut p = 0;
                            while p < b.len() {
                                let e = (p + SECTOR - (off + p) % SECTOR).min(b.len());
                                if chance(Stream::Fault, 1, 2) {
                                    apply(&mut i.durable, &POp::Write(off + p, b[p..e].to_vec()));
                                }
                                p = e;
                            }
                        }
                        op => apply(&mut i.durable, &op),
                    }
                }
                i.data = i.durable.clone();
            }
        } else {
            for i in self.inodes.values_mut() {
                i.durable = i.data.clone();
                i.pending.clear();
            }
            self.dpending.clear();
            self.dnames = self.names.clone();
        }
        let live: std::collections::BTreeSet<u64> = self.names.values().copied().collect();
        self.inodes.retain(|k, _| live.contains(k));
        self.generation += 1;
        self.crashed = false;
        self.crash_at = None;
        self.open_files = 0;
        count("fault.unsynced_writes_lost", lost);
        count("fault.torn_writes", torn);
    }
    pub fn arm_crash(&mut self, after_ops: u64) {
        self.crash_at = Some(self.ops + after_ops);
        self.waiter = Some(std::thread::current());
    }
    pub fn set_crash(&mut self, after_ops: u64) {
        self.crash_at = Some(self.ops + after_ops);
    }
    pub fn disarm(&mut self) {
        self.crash_at = None;
    }
    pub fn files(&self) -> Vec<(String, usize)> {
        self.names.iter().map(|(n, i)| (n.clone(), self.inodes[i].data.len())).collect()
    }
    pub fn calm(&mut self) {
        self.faults = Faults::default();
    }
    fn hit(&mut self, p: (u64, u64), what: &str) -> bool {
        if self.faults.dead || (p.0 > 0 && chance(Stream::Fault, p.0, p.1)) {
            self.injected += 1;
            count(&format!("fault.{what}"), 1);
            ev!("disk fault: {what}");
            return true;
        }
        false
    }
    fn next_rnd(&mut self) -> u64 {
        self.rnd = self.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.rnd >> 11
    }
}
/// Stop this thread for good: its machine is down.
fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}
/// Returns whether to crash after the operation.
fn step(what: &str) -> bool {
    let (now, after) = disk(|d| {
        d.ops += 1;
        if d.crash_at.is_some_and(|c| d.ops >= c) {
            let after = chance(Stream::Fault, 1, 2);
            if after { (false, true) } else { (true, false) }
        } else {
            (false, false)
        }
    });
    if now {
        crash(what);
    }
    after
}
fn crash(what: &str) -> ! {
    let w = disk(|d| {
        d.crashed = true;
        ev!("crash at {what}, disk operation {}", d.ops);
        count(&format!("crash.{what}"), 1);
        d.waiter.take()
    });
    if let Some(w) = w {
        w.unpark();
    }
    park_forever()
}
fn alive(g: u64) {
    if disk(|d| d.crashed || d.generation != g) {
        park_forever()
    }
}

#[repr(C)]
struct SimFile {
    base: ffi::sqlite3_file,
    inode: u64,
    generation: u64,
    delete: u32,
}
unsafe fn sf<'a>(f: *mut ffi::sqlite3_file) -> &'a mut SimFile {
    unsafe { &mut *(f as *mut SimFile) }
}
unsafe extern "C" fn x_close(f: *mut ffi::sqlite3_file) -> c_int {
    let f = unsafe { sf(f) };
    alive(f.generation);
    disk(|d| {
        d.open_files -= 1;
        if f.delete != 0 {
            let n = d.names.iter().find(|(_, i)| **i == f.inode).map(|(n, _)| n.clone());
            if let Some(n) = n {
                d.names.remove(&n);
                d.dpending.push(DOp::Delete(n));
            }
            if !d.names.values().any(|i| *i == f.inode) && !d.dnames.values().any(|i| *i == f.inode) {
                d.inodes.remove(&f.inode);
            }
        }
    });
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_read(f: *mut ffi::sqlite3_file, buf: *mut c_void, amt: c_int, off: i64) -> c_int {
    let f = unsafe { sf(f) };
    alive(f.generation);
    disk(|d| {
        let p = d.faults.read;
        if d.hit(p, "read_error") {
            return ffi::SQLITE_IOERR_READ;
        }
        let i = &d.inodes[&f.inode];
        let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, amt as usize) };
        let off = (off as usize).min(i.data.len());
        let n = (i.data.len() - off).min(out.len());
        out[..n].copy_from_slice(&i.data[off..off + n]);
        if n < out.len() {
            out[n..].fill(0);
            return ffi::SQLITE_IOERR_SHORT_READ;
        }
        ffi::SQLITE_OK
    })
}
unsafe extern "C" fn x_write(f: *mut ffi::sqlite3_file, buf: *const c_void, amt: c_int, off: i64) -> c_int {
    let f = unsafe { sf(f) };
    alive(f.generation);
    let after = step("write");
    let b = unsafe { std::slice::from_raw_parts(buf as *const u8, amt as usize) };
    let r = disk(|d| {
        let len = d.inodes[&f.inode].data.len();
        let grow = off as usize + b.len() > len;
        let mut res = ffi::SQLITE_OK;
        let mut n = b.len();
        let p = d.faults.write;
        if d.faults.full && grow {
            d.injected += 1;
            count("fault.disk_full", 1);
            ev!("disk fault: full");
            res = ffi::SQLITE_FULL;
            n = 0;
        } else if d.hit(p, "write_error") {
            res = if chance(Stream::Fault, 1, 3) { ffi::SQLITE_FULL } else { ffi::SQLITE_IOERR_WRITE };
            n = if d.faults.dead { 0 } else { choose(Stream::Fault, b.len() as u64 + 1) as usize };
        }
        if n > 0 {
            let op = POp::Write(off as usize, b[..n].to_vec());
            let i = d.inodes.get_mut(&f.inode).unwrap();
            apply(&mut i.data, &op);
            i.pending.push(op);
        }
        res
    });
    if after {
        crash("write");
    }
    r
}
unsafe extern "C" fn x_truncate(f: *mut ffi::sqlite3_file, size: i64) -> c_int {
    let f = unsafe { sf(f) };
    alive(f.generation);
    let after = step("truncate");
    let r = disk(|d| {
        let p = d.faults.write;
        if d.hit(p, "truncate_error") {
            return ffi::SQLITE_IOERR_TRUNCATE;
        }
        let op = POp::Trunc(size as usize);
        let i = d.inodes.get_mut(&f.inode).unwrap();
        apply(&mut i.data, &op);
        i.pending.push(op);
        ffi::SQLITE_OK
    });
    if after {
        crash("truncate");
    }
    r
}
unsafe extern "C" fn x_sync(f: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let f = unsafe { sf(f) };
    alive(f.generation);
    let after = step("sync");
    let r = disk(|d| {
        let p = d.faults.sync;
        if d.hit(p, "sync_error") {
            return ffi::SQLITE_IOERR_FSYNC;
        }
        d.sync_inode(f.inode);
        ffi::SQLITE_OK
    });
    count("disk.syncs", 1);
    if after {
        crash("sync");
    }
    r
}
unsafe extern "C" fn x_size(f: *mut ffi::sqlite3_file, out: *mut i64) -> c_int {
    let f = unsafe { sf(f) };
    alive(f.generation);
    disk(|d| {
        let p = d.faults.meta;
        if d.hit(p, "stat_error") {
            return ffi::SQLITE_IOERR_FSTAT;
        }
        unsafe { *out = d.inodes[&f.inode].data.len() as i64 };
        ffi::SQLITE_OK
    })
}
unsafe extern "C" fn x_lock(f: *mut ffi::sqlite3_file, _l: c_int) -> c_int {
    alive(unsafe { sf(f) }.generation);
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_unlock(f: *mut ffi::sqlite3_file, _l: c_int) -> c_int {
    alive(unsafe { sf(f) }.generation);
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_reserved(_f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    unsafe { *out = 0 };
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_control(_f: *mut ffi::sqlite3_file, _op: c_int, _arg: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector(_f: *mut ffi::sqlite3_file) -> c_int {
    SECTOR as c_int
}
unsafe extern "C" fn x_devchar(_f: *mut ffi::sqlite3_file) -> c_int {
    ffi::SQLITE_IOCAP_POWERSAFE_OVERWRITE
}
static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 1,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_reserved),
    xFileControl: Some(x_control),
    xSectorSize: Some(x_sector),
    xDeviceCharacteristics: Some(x_devchar),
    xShmMap: None,
    xShmLock: None,
    xShmBarrier: None,
    xShmUnmap: None,
    xFetch: None,
    xUnfetch: None,
};
unsafe extern "C" fn v_open(_v: *mut ffi::sqlite3_vfs, name: *const c_char, file: *mut ffi::sqlite3_file, flags: c_int, out: *mut c_int) -> c_int {
    unsafe { (*file).pMethods = std::ptr::null() };
    let g = disk(|d| if d.crashed { u64::MAX } else { d.generation });
    alive(g);
    let named = !name.is_null();
    let creates = disk(|d| {
        let n = if named { unsafe { CStr::from_ptr(name) }.to_str().unwrap().to_string() } else { String::new() };
        !named || !d.names.contains_key(&n)
    });
    let after = creates && named && step("create");
    let r = disk(|d| {
        let p = d.faults.meta;
        if d.hit(p, "open_error") {
            return ffi::SQLITE_CANTOPEN;
        }
        let n = if named {
            unsafe { CStr::from_ptr(name) }.to_str().unwrap().to_string()
        } else {
            format!("/tmp-{}", d.next_inode)
        };
        let id = match d.names.get(&n) {
            Some(i) => *i,
            None => {
                if flags & ffi::SQLITE_OPEN_CREATE == 0 {
                    return ffi::SQLITE_CANTOPEN;
                }
                if d.faults.full {
                    d.injected += 1;
                    count("fault.disk_full", 1);
                    return ffi::SQLITE_CANTOPEN;
                }
                d.next_inode += 1;
                let id = d.next_inode;
                let j = flags & (ffi::SQLITE_OPEN_MAIN_JOURNAL | ffi::SQLITE_OPEN_SUPER_JOURNAL | ffi::SQLITE_OPEN_WAL) != 0;
                d.inodes.insert(id, Inode { dirsync: j, ..Default::default() });
                d.names.insert(n.clone(), id);
                d.dpending.push(DOp::Create(n.clone(), id));
                id
            }
        };
        d.open_files += 1;
        let f = unsafe { sf(file) };
        f.inode = id;
        f.generation = d.generation;
        f.delete = (flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0) as u32;
        f.base.pMethods = &METHODS;
        if !out.is_null() {
            unsafe { *out = flags };
        }
        ffi::SQLITE_OK
    });
    if after {
        crash("create");
    }
    r
}
unsafe extern "C" fn v_delete(_v: *mut ffi::sqlite3_vfs, name: *const c_char, sync_dir: c_int) -> c_int {
    let g = disk(|d| if d.crashed { u64::MAX } else { d.generation });
    alive(g);
    let after = step("delete");
    let n = unsafe { CStr::from_ptr(name) }.to_str().unwrap().to_string();
    let r = disk(|d| {
        let p = d.faults.meta;
        if d.hit(p, "delete_error") {
            return ffi::SQLITE_IOERR_DELETE;
        }
        if d.names.remove(&n).is_none() {
            return ffi::SQLITE_IOERR_DELETE_NOENT;
        }
        d.dpending.push(DOp::Delete(n));
        if sync_dir != 0 {
            d.sync_dir();
        }
        ffi::SQLITE_OK
    });
    if after {
        crash("delete");
    }
    r
}
unsafe extern "C" fn v_access(_v: *mut ffi::sqlite3_vfs, name: *const c_char, flags: c_int, out: *mut c_int) -> c_int {
    let n = unsafe { CStr::from_ptr(name) }.to_str().unwrap();
    disk(|d| {
        let p = d.faults.meta;
        if d.hit(p, "access_error") {
            return ffi::SQLITE_IOERR_ACCESS;
        }
        let r = match d.names.get(n) {
            // like the unix VFS: an empty file does not count as existing
            Some(i) => flags != ffi::SQLITE_ACCESS_EXISTS || !d.inodes[i].data.is_empty(),
            None => false,
        };
        unsafe { *out = r as c_int };
        ffi::SQLITE_OK
    })
}
unsafe extern "C" fn v_fullpath(_v: *mut ffi::sqlite3_vfs, name: *const c_char, n_out: c_int, out: *mut c_char) -> c_int {
    let b = unsafe { CStr::from_ptr(name) }.to_bytes_with_nul();
    if b.len() > n_out as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, out, b.len()) };
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_randomness(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    disk(|d| {
        for k in 0..n {
            unsafe { *out.add(k as usize) = d.next_rnd() as c_char };
        }
    });
    n
}
unsafe extern "C" fn v_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    sleep_ns(us as u64 * 1000);
    us
}
unsafe extern "C" fn v_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    unsafe { *out = 2460000.5 };
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_lasterr(_v: *mut ffi::sqlite3_vfs, _n: c_int, _o: *mut c_char) -> c_int {
    0
}

// Allocation seam: SQLite's allocator is asked through these, which can fail.
static mut REAL_MEM: Option<ffi::sqlite3_mem_methods> = None;
fn nomem() -> bool {
    if !in_sim() {
        return false;
    }
    disk(|d| {
        let p = d.faults.nomem;
        p.0 > 0 && d.hit(p, "alloc_failure")
    })
}
#[allow(static_mut_refs)]
unsafe extern "C" fn m_malloc(n: c_int) -> *mut c_void {
    if nomem() {
        return std::ptr::null_mut();
    }
    unsafe { REAL_MEM.as_ref().unwrap().xMalloc.unwrap()(n) }
}
#[allow(static_mut_refs)]
unsafe extern "C" fn m_realloc(p: *mut c_void, n: c_int) -> *mut c_void {
    if nomem() {
        return std::ptr::null_mut();
    }
    unsafe { REAL_MEM.as_ref().unwrap().xRealloc.unwrap()(p, n) }
}

/// Make the simulated disk SQLite's only disk. Called once before any simulation starts.
#[allow(static_mut_refs)]
pub fn install() {
    unsafe {
        let mut m: ffi::sqlite3_mem_methods = std::mem::zeroed();
        let r = ffi::sqlite3_config(ffi::SQLITE_CONFIG_GETMALLOC, &mut m as *mut _);
        assert_eq!(r, ffi::SQLITE_OK);
        // the default methods are filled in lazily by a set/get cycle
        if m.xMalloc.is_none() {
            assert_eq!(ffi::sqlite3_initialize(), ffi::SQLITE_OK);
            assert_eq!(ffi::sqlite3_shutdown(), ffi::SQLITE_OK);
            assert_eq!(ffi::sqlite3_config(ffi::SQLITE_CONFIG_GETMALLOC, &mut m as *mut _), ffi::SQLITE_OK);
        }
        assert!(m.xMalloc.is_some());
        REAL_MEM = Some(m);
        let mut mine = m;
        mine.xMalloc = Some(m_malloc);
        mine.xRealloc = Some(m_realloc);
        assert_eq!(ffi::sqlite3_config(ffi::SQLITE_CONFIG_MALLOC, &mut mine as *mut _), ffi::SQLITE_OK);
        assert_eq!(ffi::sqlite3_initialize(), ffi::SQLITE_OK);
        let mut v: ffi::sqlite3_vfs = std::mem::zeroed();
        v.iVersion = 1;
        v.szOsFile = std::mem::size_of::<SimFile>() as c_int;
        v.mxPathname = 512;
        v.zName = c"simdisk".as_ptr();
        v.xOpen = Some(v_open);
        v.xDelete = Some(v_delete);
        v.xAccess = Some(v_access);
        v.xFullPathname = Some(v_fullpath);
        v.xRandomness = Some(v_randomness);
        v.xSleep = Some(v_sleep);
        v.xCurrentTime = Some(v_time);
        v.xGetLastError = Some(v_lasterr);
        assert_eq!(ffi::sqlite3_vfs_register(Box::leak(Box::new(v)), 1), ffi::SQLITE_OK);
    }
}
/// Wait (as the thread that armed the crash) until `done` or a crash. Returns true on a crash.
pub fn wait(done: &std::sync::atomic::AtomicBool) -> bool {
    loop {
        if done.load(std::sync::atomic::Ordering::SeqCst) {
            return false;
        }
        if disk(|d| d.crashed) {
            return true;
        }
        std::thread::park();
    }
}
