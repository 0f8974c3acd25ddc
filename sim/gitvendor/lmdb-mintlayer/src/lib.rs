//! Simulated LMDB engine with the interface of mintlayer's `lmdb` fork (which needs the network to fetch).
//! Data lives in named in-process "disks" that outlive the environments opened on them, so that a node can be
//! crashed and restarted. Every operation goes through a hook where the simulator injects errors and crashes.
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::ops::Bound;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    KeyExist, NotFound, PageNotFound, Corrupted, Panic, VersionMismatch, Invalid, MapFull, DbsFull, ReadersFull, TlsFull, TxnFull,
    CursorFull, PageFull, MapResized, Incompatible, BadRslot, BadTxn, BadValSize, BadDbi, Other(i32),
}
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "simulated LMDB: {self:?}") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

/// Where the simulator intervenes.
pub mod sim {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Op { Open, BeginRo, BeginRw, Get, Scan, Put, Del, Commit, CommitDone, Abort, Sync, Resize }
    type Hook = Box<dyn FnMut(Op, usize) -> Option<Error> + Send>;
    static HOOK: Mutex<Option<Hook>> = Mutex::new(None);
    pub(crate) static DISKS: Mutex<BTreeMap<PathBuf, Arc<Disk>>> = Mutex::new(BTreeMap::new());
    /// Called with each operation and its size in bytes; it may return an error or unwind (a crash).
    pub fn set_hook(h: Option<Hook>) { *lock(&HOOK) = h; }
    pub(crate) fn at(op: Op, n: usize) -> Result<()> {
        if std::thread::panicking() { return Ok(()); }
        let h = lock(&HOOK).take();
        if let Some(mut h) = h {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h(op, n)));
            let mut g = lock(&HOOK);
            if g.is_none() { *g = Some(h); }
            drop(g);
            match r { Ok(Some(e)) => return Err(e), Ok(None) => {}, Err(p) => std::panic::resume_unwind(p) }
        }
        Ok(())
    }
    /// A machine crash: what was not synced is gone. (A killed process loses nothing that was committed.)
    pub fn lose_unsynced(path: &Path) {
        if let Some(d) = lock(&DISKS).get(path) { let mut g = lock(&d.m); g.cur = g.synced.clone(); g.writer = false; }
    }
    /// The process holding the disk is gone: its locks are released.
    pub fn release(path: &Path) {
        if let Some(d) = lock(&DISKS).get(path) { lock(&d.m).writer = false; }
    }
    pub fn has_unsynced(path: &Path) -> bool {
        lock(&DISKS).get(path).is_some_and(|d| { let g = lock(&d.m); !Arc::ptr_eq(&g.cur, &g.synced) })
    }
    /// The committed contents, by map name.
    pub fn dump(path: &Path) -> BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>> {
        lock(&DISKS).get(path).map(|d| { let g = lock(&d.m); g.cur.iter().map(|(k, v)| (k.clone(), (**v).clone())).collect() }).unwrap_or_default()
    }
    pub fn copy(from: &Path, to: &Path) {
        let mut g = lock(&DISKS);
        if let Some(d) = g.get(from).cloned() {
            let s = lock(&d.m);
            let n = Disk { m: Mutex::new(State { cur: s.cur.clone(), synced: s.synced.clone(), writer: false, used: s.used, map_size: s.map_size }), c: Condvar::new() };
            drop(s);
            g.insert(to.to_owned(), Arc::new(n));
        }
    }
    pub fn remove(path: &Path) { lock(&DISKS).remove(path); }
}
use sim::{at, Op};

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Maps = BTreeMap<String, Arc<Map>>;
struct State { cur: Arc<Maps>, synced: Arc<Maps>, writer: bool, used: usize, map_size: usize }
struct Disk { m: Mutex<State>, c: Condvar }
fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }
fn cost(k: &[u8], v: &[u8]) -> usize { k.len() + v.len() + 16 }

macro_rules! flags { ($n:ident { $($c:ident = $v:expr),* }) => {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct $n(u32);
    impl $n { $(pub const $c: Self = Self($v);)* pub const fn empty() -> Self { Self(0) } pub const fn is_empty(&self) -> bool { self.0 == 0 } pub const fn contains(&self, o: Self) -> bool { self.0 & o.0 == o.0 } }
    impl std::ops::BitOr for $n { type Output = Self; fn bitor(self, o: Self) -> Self { Self(self.0 | o.0) } }
    impl std::ops::BitAnd for $n { type Output = Self; fn bitand(self, o: Self) -> Self { Self(self.0 & o.0) } }
    impl std::ops::BitOrAssign for $n { fn bitor_assign(&mut self, o: Self) { self.0 |= o.0 } }
} }
flags!(EnvironmentFlags { FIXED_MAP = 1, NO_SUB_DIR = 0x4000, WRITE_MAP = 0x80000, READ_ONLY = 0x20000, NO_META_SYNC = 0x40000, NO_SYNC = 0x10000, MAP_ASYNC = 0x100000, NO_TLS = 0x200000 });
flags!(DatabaseFlags { REVERSE_KEY = 2, DUP_SORT = 4 });
flags!(WriteFlags { NO_OVERWRITE = 0x10, NO_DUP_DATA = 0x20, CURRENT = 0x40, APPEND = 0x20000, APPEND_DUP = 0x40000 });

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DatabaseResizeInfo { pub old_size: u64, pub new_size: u64, pub occupied_size_before_resize: u64 }
#[derive(Clone, Debug, PartialEq)]
pub struct DatabaseResizeSettings { pub min_resize_step: usize, pub max_resize_step: usize, pub default_resize_ratio_percentage: u32, pub resize_trigger_percentage: f32 }
impl Default for DatabaseResizeSettings {
    fn default() -> Self { Self { min_resize_step: 1 << 27, max_resize_step: 1 << 30, default_resize_ratio_percentage: 50, resize_trigger_percentage: 0.9 } }
}

pub struct EnvironmentBuilder { flags: EnvironmentFlags, size: usize, max_dbs: u32, rs: DatabaseResizeSettings, cb: Option<Box<dyn Fn(DatabaseResizeInfo)>> }
impl EnvironmentBuilder {
    pub fn set_map_size(mut self, n: usize) -> Self { self.size = n; self }
    pub fn set_resize_settings(mut self, s: DatabaseResizeSettings) -> Self { self.rs = s; self }
    pub fn set_resize_callback(mut self, c: Option<Box<dyn Fn(DatabaseResizeInfo)>>) -> Self { self.cb = c; self }
    pub fn set_max_dbs(mut self, n: u32) -> Self { self.max_dbs = n; self }
    pub fn set_flags(mut self, f: EnvironmentFlags) -> Self { self.flags = f; self }
    pub fn open(self, path: &Path) -> Result<Environment> {
        at(Op::Open, 0)?;
        let disk = lock(&sim::DISKS).entry(path.to_owned()).or_insert_with(|| {
            let e: Arc<Maps> = Default::default();
            Arc::new(Disk { m: Mutex::new(State { cur: e.clone(), synced: e, writer: false, used: 0, map_size: 1 << 20 }), c: Condvar::new() })
        }).clone();
        { let mut g = lock(&disk.m); g.map_size = g.map_size.max(self.size).max(g.used); }
        Ok(Environment { disk, flags: self.flags, max_dbs: self.max_dbs, rs: self.rs, cb: Mutex::new(self.cb), names: Mutex::default() })
    }
}

pub struct Environment { disk: Arc<Disk>, flags: EnvironmentFlags, max_dbs: u32, rs: DatabaseResizeSettings, cb: Mutex<Option<Box<dyn Fn(DatabaseResizeInfo)>>>, names: Mutex<Vec<String>> }
// As for the real environment: the callback is only ever called under a lock.
unsafe impl Send for Environment {}
unsafe impl Sync for Environment {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Database(usize);

impl Environment {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> EnvironmentBuilder { EnvironmentBuilder { flags: Default::default(), size: 1 << 20, max_dbs: 0, rs: Default::default(), cb: None } }
    fn db(&self, name: Option<&str>, create: bool) -> Result<Database> {
        at(Op::Open, 0)?;
        let name = name.unwrap_or("").to_owned();
        {
            let mut g = lock(&self.disk.m);
            if !g.cur.contains_key(&name) {
                if !create { return Err(Error::NotFound); }
                let m = Arc::make_mut(&mut g.cur);
                m.insert(name.clone(), Default::default());
                g.synced = g.cur.clone();
            }
        }
        let mut n = lock(&self.names);
        if let Some(i) = n.iter().position(|x| *x == name) { return Ok(Database(i)); }
        if n.len() as u32 >= self.max_dbs { return Err(Error::DbsFull); }
        n.push(name);
        Ok(Database(n.len() - 1))
    }
    pub fn open_db(&self, name: Option<&str>) -> Result<Database> { self.db(name, false) }
    pub fn create_db(&self, name: Option<&str>, _: DatabaseFlags) -> Result<Database> { self.db(name, true) }
    pub fn begin_ro_txn(&self) -> Result<RoTransaction<'_>> {
        at(Op::BeginRo, 0)?;
        let snap = lock(&self.disk.m).cur.clone();
        Ok(RoTransaction { snap, names: lock(&self.names).clone(), _e: PhantomData })
    }
    pub fn begin_rw_txn(&self) -> Result<RwTransaction<'_>> { Self::begin_rw_txn_generic(self, None, false, false) }
    pub fn begin_rw_txn_generic(&self, headroom: Option<usize>, no_sync: bool, _no_meta_sync: bool) -> Result<RwTransaction<'_>> {
        if self.flags.contains(EnvironmentFlags::READ_ONLY) { return Err(Error::Other(13)); }
        at(Op::BeginRw, 0)?;
        let (used, size) = { let g = lock(&self.disk.m); (g.used, g.map_size) };
        if used + headroom.unwrap_or(0) > (size as f64 * self.rs.resize_trigger_percentage as f64) as usize { self.do_resize(headroom)?; }
        let mut g = lock(&self.disk.m);
        while g.writer { g = self.disk.c.wait(g).unwrap_or_else(|e| e.into_inner()); }
        g.writer = true;
        let (base, used) = (g.cur.clone(), g.used);
        drop(g);
        Ok(RwTransaction { env: self, base: Some(base), over: Default::default(), names: lock(&self.names).clone(), used, bad: false, no_sync, open: true })
    }
    pub fn do_resize(&self, increase: Option<usize>) -> Result<()> {
        at(Op::Resize, 0)?;
        let info = {
            let mut g = lock(&self.disk.m);
            let old = g.map_size;
            let step = (old as u64 * self.rs.default_resize_ratio_percentage as u64 / 100) as usize;
            let step = step.clamp(self.rs.min_resize_step, self.rs.max_resize_step.max(self.rs.min_resize_step)).max(increase.unwrap_or(0));
            g.map_size = old + step;
            DatabaseResizeInfo { old_size: old as u64, new_size: g.map_size as u64, occupied_size_before_resize: g.used as u64 }
        };
        if let Some(c) = &*lock(&self.cb) { c(info) }
        Ok(())
    }
    pub fn sync(&self, _force: bool) -> Result<()> {
        at(Op::Sync, 0)?;
        let mut g = lock(&self.disk.m);
        g.synced = g.cur.clone();
        Ok(())
    }
}

pub trait Cursor<'txn>: Sized {
    fn into_iter_start(self) -> Iter<'txn, Self>;
    fn into_iter_from<K: AsRef<[u8]>>(self, key: K) -> Iter<'txn, Self>;
}
pub struct Iter<'txn, C>(Box<dyn Iterator<Item = (&'txn [u8], &'txn [u8])> + 'txn>, PhantomData<C>);
impl<'txn, C> Iterator for Iter<'txn, C> {
    type Item = Result<(&'txn [u8], &'txn [u8])>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next().map(Ok) }
}
pub struct RoCursor<'txn> { base: Option<&'txn Map>, over: Option<&'txn BTreeMap<Vec<u8>, Option<Vec<u8>>>> }
impl<'txn> RoCursor<'txn> {
    fn from(self, b: Bound<&[u8]>) -> Iter<'txn, Self> {
        let mut x = self.base.into_iter().flat_map({ let b: Bound<Vec<u8>> = b.map(|x| x.to_vec()); move |m| m.range((b.clone(), Bound::Unbounded)) }).peekable();
        let mut y = self.over.into_iter().flat_map({ let b: Bound<Vec<u8>> = b.map(|x| x.to_vec()); move |m| m.range((b.clone(), Bound::Unbounded)) }).peekable();
        Iter(Box::new(std::iter::from_fn(move || loop {
            let take_over = match (x.peek(), y.peek()) {
                (None, None) => return None,
                (Some(_), None) => false,
                (None, Some(_)) => true,
                (Some((a, _)), Some((b, _))) => { if a == b { x.next(); } else if a < b { let (k, v) = x.next().unwrap(); return Some((&k[..], &v[..])); } true }
            };
            if take_over { if let (k, Some(v)) = y.next().unwrap() { return Some((&k[..], &v[..])); } }
            else { let (k, v) = x.next().unwrap(); return Some((&k[..], &v[..])); }
        })), PhantomData)
    }
}
impl<'txn> Cursor<'txn> for RoCursor<'txn> {
    fn into_iter_start(self) -> Iter<'txn, Self> { self.from(Bound::Unbounded) }
    fn into_iter_from<K: AsRef<[u8]>>(self, key: K) -> Iter<'txn, Self> { let k = key.as_ref().to_vec(); self.from(Bound::Included(&k[..])) }
}

pub trait Transaction: Sized {
    fn get<'txn, K: AsRef<[u8]>>(&'txn self, db: Database, key: &K) -> Result<&'txn [u8]>;
    fn open_ro_cursor<'txn>(&'txn self, db: Database) -> Result<RoCursor<'txn>>;
    fn commit(self) -> Result<()>;
    fn abort(self) {}
}
pub struct RoTransaction<'env> { snap: Arc<Maps>, names: Vec<String>, _e: PhantomData<&'env Environment> }
impl Transaction for RoTransaction<'_> {
    fn get<'txn, K: AsRef<[u8]>>(&'txn self, db: Database, key: &K) -> Result<&'txn [u8]> {
        let k = key.as_ref();
        if k.is_empty() || k.len() > 511 { return Err(Error::BadValSize); }
        at(Op::Get, k.len())?;
        let n = self.names.get(db.0).ok_or(Error::BadDbi)?;
        self.snap.get(n).and_then(|m| m.get(k)).map(|v| &v[..]).ok_or(Error::NotFound)
    }
    fn open_ro_cursor<'txn>(&'txn self, db: Database) -> Result<RoCursor<'txn>> {
        at(Op::Scan, 0)?;
        let n = self.names.get(db.0).ok_or(Error::BadDbi)?;
        Ok(RoCursor { base: self.snap.get(n).map(|m| &**m), over: None })
    }
    fn commit(self) -> Result<()> { Ok(()) }
}
pub struct RwTransaction<'env> { env: &'env Environment, base: Option<Arc<Maps>>, over: BTreeMap<String, BTreeMap<Vec<u8>, Option<Vec<u8>>>>, names: Vec<String>, used: usize, bad: bool, no_sync: bool, open: bool }
impl RwTransaction<'_> {
    fn cur(&self, n: &str, k: &[u8]) -> Option<&[u8]> {
        match self.over.get(n).and_then(|m| m.get(k)) { Some(v) => v.as_deref(), None => self.base.as_ref().and_then(|b| b.get(n)).and_then(|m| m.get(k)).map(|v| &v[..]) }
    }
    pub fn put<K: AsRef<[u8]>, D: AsRef<[u8]>>(&mut self, db: Database, key: &K, data: &D, _f: WriteFlags) -> Result<()> {
        let (k, v) = (key.as_ref(), data.as_ref());
        if k.is_empty() || k.len() > 511 { return Err(Error::BadValSize); }
        if self.bad { return Err(Error::BadTxn); }
        if let Err(e) = at(Op::Put, k.len() + v.len()) { self.bad = true; return Err(e); }
        let n = self.names.get(db.0).ok_or(Error::BadDbi)?.clone();
        let used = self.used - self.cur(&n, k).map_or(0, |o| cost(k, o)) + cost(k, v);
        if used > lock(&self.env.disk.m).map_size { self.bad = true; return Err(Error::MapFull); }
        self.used = used;
        self.over.entry(n).or_default().insert(k.to_vec(), Some(v.to_vec()));
        Ok(())
    }
    pub fn del<K: AsRef<[u8]>>(&mut self, db: Database, key: &K, _d: Option<&[u8]>) -> Result<()> {
        let k = key.as_ref();
        if k.is_empty() || k.len() > 511 { return Err(Error::BadValSize); }
        if self.bad { return Err(Error::BadTxn); }
        if let Err(e) = at(Op::Del, k.len()) { self.bad = true; return Err(e); }
        let n = self.names.get(db.0).ok_or(Error::BadDbi)?.clone();
        let Some(c) = self.cur(&n, k).map(|o| cost(k, o)) else { return Err(Error::NotFound) };
        self.used -= c;
        self.over.entry(n).or_default().insert(k.to_vec(), None);
        Ok(())
    }
    fn release(&mut self) {
        if self.open { self.open = false; lock(&self.env.disk.m).writer = false; self.env.disk.c.notify_one(); }
    }
}
impl Transaction for RwTransaction<'_> {
    fn get<'txn, K: AsRef<[u8]>>(&'txn self, db: Database, key: &K) -> Result<&'txn [u8]> {
        let k = key.as_ref();
        if k.is_empty() || k.len() > 511 { return Err(Error::BadValSize); }
        if self.bad { return Err(Error::BadTxn); }
        at(Op::Get, k.len())?;
        let n = self.names.get(db.0).ok_or(Error::BadDbi)?;
        self.cur(n, k).ok_or(Error::NotFound)
    }
    fn open_ro_cursor<'txn>(&'txn self, db: Database) -> Result<RoCursor<'txn>> {
        if self.bad { return Err(Error::BadTxn); }
        at(Op::Scan, 0)?;
        let n = self.names.get(db.0).ok_or(Error::BadDbi)?;
        Ok(RoCursor { base: self.base.as_ref().and_then(|b| b.get(n)).map(|m| &**m), over: self.over.get(n) })
    }
    fn commit(mut self) -> Result<()> {
        if self.bad { return Err(Error::BadTxn); }
        at(Op::Commit, self.over.len())?;
        self.base = None;
        {
            let mut g = lock(&self.env.disk.m);
            let over = std::mem::take(&mut self.over);
            // keep `synced` from forcing a copy of what is about to be replaced by it anyway
            if !self.no_sync { g.synced = Default::default(); }
            let maps = Arc::make_mut(&mut g.cur);
            for (n, o) in over {
                let m = Arc::make_mut(maps.entry(n).or_default());
                for (k, v) in o { match v { Some(v) => { m.insert(k, v); } None => { m.remove(&k); } } }
            }
            g.used = self.used;
            if !self.no_sync { g.synced = g.cur.clone(); }
        }
        self.release();
        // a crash from here on finds the transaction on the disk; errors cannot be reported any more
        let _ = at(Op::CommitDone, 0);
        Ok(())
    }
}
impl Drop for RwTransaction<'_> { fn drop(&mut self) { self.release(); } }
