//! The typed layer over backends that fail on demand.
use crate::model::{w, wchance};
use detsim::*;
use serialization::{Decode, Encode};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt::Debug;
use storage::schema::{DbMap, HasDbMap, Schema};
use storage::{MakeMapRef, OrderPreservingValue, Storage, StorageSharedWrite, TransactionRw};
use storage_core::backend::{self, Backend, BackendImpl, ReadOps, SharedBackend, SharedBackendImpl, TxRw, WriteOps};
use storage_core::{Data, DbDesc, DbMapId};
use utils::shallow_clone::ShallowClone;

storage::decl_schema! {
    pub S {
        A: Map<u32, u64>,
        B: Map<(u8, String), Vec<u8>>,
        C: Map<OrderPreservingValue<u64>, String>,
        D: Map<Vec<u8>, Option<(u16, bool)>>,
        E: Map<u32, u64>,
        F: Map<(OrderPreservingValue<u16>, OrderPreservingValue<u32>), ()>,
    }
}

#[derive(Default)]
struct Flake {
    p: (u64, u64),
    injected: u64,
}
static FL: SimCell<Flake> = SimCell::new(Flake { p: (0, 1), injected: 0 });
fn flake(what: &str) -> storage_core::Result<()> {
    FL.with(|f| {
        if f.p.0 > 0 && chance(Stream::Fault, f.p.0, f.p.1) {
            f.injected += 1;
            count(&format!("fault.backend_{what}"), 1);
            ev!("backend fails {what}");
            return Err(storage_core::error::Recoverable::TemporarilyUnavailable.into());
        }
        Ok(())
    })
}
fn injected() -> u64 {
    FL.with(|f| f.injected)
}
fn set(p: (u64, u64)) {
    FL.with(|f| f.p = p)
}
/// A backend whose every operation may fail; what fails has no effect.
pub struct Flaky<B>(pub B);
pub struct FlakyImpl<I>(I);
pub struct FlakyTx<T>(T);
impl<B: Backend> Backend for Flaky<B> {
    type Impl = FlakyImpl<B::Impl>;
    fn open(self, desc: DbDesc) -> storage_core::Result<Self::Impl> {
        flake("open")?;
        Ok(FlakyImpl(self.0.open(desc)?))
    }
}
impl<B: SharedBackend> SharedBackend for Flaky<B> {
    type ImplHelper = FlakyImpl<B::ImplHelper>;
}
impl<I: Clone> Clone for FlakyImpl<I> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<I: ShallowClone> ShallowClone for FlakyImpl<I> {
    fn shallow_clone(&self) -> Self {
        Self(self.0.shallow_clone())
    }
}
impl<I: BackendImpl> BackendImpl for FlakyImpl<I> {
    type TxRo<'a> = FlakyTx<I::TxRo<'a>>;
    type TxRw<'a> = FlakyTx<I::TxRw<'a>>;
    fn transaction_ro(&self) -> storage_core::Result<Self::TxRo<'_>> {
        flake("begin_ro")?;
        Ok(FlakyTx(self.0.transaction_ro()?))
    }
    fn transaction_rw(&mut self, s: Option<usize>) -> storage_core::Result<Self::TxRw<'_>> {
        flake("begin_rw")?;
        Ok(FlakyTx(self.0.transaction_rw(s)?))
    }
}
impl<I: SharedBackendImpl> SharedBackendImpl for FlakyImpl<I> {
    fn transaction_rw(&self, s: Option<usize>) -> storage_core::Result<Self::TxRw<'_>> {
        flake("begin_rw")?;
        Ok(FlakyTx(SharedBackendImpl::transaction_rw(&self.0, s)?))
    }
}
impl<T: ReadOps> ReadOps for FlakyTx<T> {
    fn get(&self, m: DbMapId, k: &[u8]) -> storage_core::Result<Option<Cow<'_, [u8]>>> {
        flake("get")?;
        self.0.get(m, k)
    }
    fn prefix_iter(&self, m: DbMapId, p: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
        flake("scan")?;
        self.0.prefix_iter(m, p)
    }
    fn greater_equal_iter(&self, m: DbMapId, k: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
        flake("scan")?;
        self.0.greater_equal_iter(m, k)
    }
}
impl<T: WriteOps> WriteOps for FlakyTx<T> {
    fn put(&mut self, m: DbMapId, k: Data, v: Data) -> storage_core::Result<()> {
        flake("put")?;
        self.0.put(m, k, v)
    }
    fn del(&mut self, m: DbMapId, k: &[u8]) -> storage_core::Result<()> {
        flake("del")?;
        self.0.del(m, k)
    }
}
impl<T: ReadOps> backend::TxRo for FlakyTx<T> {}
impl<T: TxRw> TxRw for FlakyTx<T> {
    fn commit(self) -> storage_core::Result<()> {
        flake("commit")?;
        self.0.commit()
    }
}

/// What the storage should hold: per map, typed entries (kept sorted by encoded key).
#[derive(Clone, Default, PartialEq, Debug)]
struct St {
    a: BTreeMap<Vec<u8>, (u32, u64)>,
    b: BTreeMap<Vec<u8>, ((u8, String), Vec<u8>)>,
    c: BTreeMap<Vec<u8>, (OrderPreservingValue<u64>, String)>,
    d: BTreeMap<Vec<u8>, (Vec<u8>, Option<(u16, bool)>)>,
    e: BTreeMap<Vec<u8>, (u32, u64)>,
    f: BTreeMap<Vec<u8>, ((OrderPreservingValue<u16>, OrderPreservingValue<u32>), ())>,
}
fn num() -> u64 {
    match w(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 255 + w(3),
        3 => 65535 + w(3),
        4 => 1 << (8 * w(8)),
        _ => w(6),
    }
}
fn text() -> String {
    (0..w(5)).map(|_| ['a', 'b', '\0', 'é', '\u{10ffff}'][w(5) as usize]).collect()
}
fn bytes() -> Vec<u8> {
    (0..w(70)).map(|_| w(256) as u8).collect()
}
type M<K, V> = BTreeMap<Vec<u8>, (K, V)>;
fn pick<K: Clone, V>(m: &M<K, V>, fresh: impl FnOnce() -> K) -> K {
    if !m.is_empty() && wchance(1, 2) { m.values().nth(w(m.len() as u64) as usize).unwrap().0.clone() } else { fresh() }
}
type R = Result<(), storage_core::Error>;
fn list<K: Clone + Debug, V: Clone + Debug>(m: &M<K, V>, from: Option<Vec<u8>>) -> Vec<(K, V)> {
    m.range(from.unwrap_or_default()..).map(|(_, x)| x.clone()).collect()
}
/// Reads through any typed transaction.
fn read<'tx, Tx, Be: Backend, Mp: DbMap, I>(tx: &Tx, m: &M<Mp::Key, Mp::Value>, key: Mp::Key) -> R
where
    Tx: MakeMapRef<'tx, Be, S>,
    Tx::Impl: ReadOps,
    S: HasDbMap<Mp, I>,
    Mp::Key: Clone + PartialEq + Debug + Encode + Decode,
    Mp::Value: Clone + PartialEq + Debug + Encode + Decode,
{
    let map = tx.get::<Mp, I>();
    let name = Mp::NAME;
    ev!("read {name} {key:?}");
    match w(5) {
        0 | 1 => {
            let got = map.get(&key)?.map(|v| v.decode());
            let want = m.get(&key.encode()).map(|x| x.1.clone());
            check!(got == want, "S06/get", "{name}: get({key:?}) = {got:?}, expected {want:?}");
        }
        2 => {
            let got: Vec<_> = map.greater_equal_iter_decoded(&key)?.collect();
            let want = list(m, Some(key.encode()));
            check!(got == want, "S06/scan", "{name}: scan from {key:?} = {got:?}, expected {want:?}");
        }
        3 => {
            let got: Vec<_> = map.prefix_iter_decoded(&())?.collect();
            let want = list(m, None);
            check!(got == want, "S06/scan", "{name}: everything = {got:?}, expected {want:?}");
        }
        _ => {
            let a: Vec<_> = map.prefix_iter_keys(&())?.collect();
            let b: Vec<_> = map.greater_equal_iter_keys(&key)?.collect();
            let c: Vec<_> = map.prefix_iter(&())?.map(|(k, v)| (k, v.decode())).collect();
            let all = list(m, None);
            check!(c == all, "S06/scan", "{name}: entries = {c:?}, expected {all:?}");
            check!(a == all.into_iter().map(|x| x.0).collect::<Vec<_>>(), "S06/scan", "{name}: keys = {a:?}");
            check!(b == list(m, Some(key.encode())).into_iter().map(|x| x.0).collect::<Vec<_>>(), "S06/scan", "{name}: keys from {key:?} = {b:?}");
        }
    }
    count("op.read", 1);
    Ok(())
}
fn write<Be: Backend, Mp: DbMap, I>(tx: &mut TransactionRw<'_, Be, S>, m: &mut M<Mp::Key, Mp::Value>, key: Mp::Key, val: Option<Mp::Value>) -> R
where
    S: HasDbMap<Mp, I>,
    Mp::Key: Clone + Debug + Encode,
    Mp::Value: Clone + PartialEq + Debug + Encode,
    for<'a> <Be::Impl as BackendImpl>::TxRw<'a>: ReadOps + WriteOps,
{
    let mut map = tx.get_mut::<Mp, I>();
    ev!("{} {} {key:?}", if val.is_some() { "put" } else { "del" }, Mp::NAME);
    match val {
        Some(v) => {
            map.put(&key, &v)?;
            m.insert(key.encode(), (key.clone(), v.clone()));
        }
        None => {
            map.del(&key)?;
            m.remove(&key.encode());
        }
    }
    let got = map.get(&key)?.map(|v| v.decode());
    let want = m.get(&key.encode()).map(|x| x.1.clone());
    check!(got == want, "S06/get_after_put", "{}: get({key:?}) = {got:?} right after writing {want:?}", Mp::NAME);
    count("op.write", 1);
    Ok(())
}
fn key_a(m: &M<u32, u64>) -> u32 {
    pick(m, || num() as u32)
}
fn read_any<'tx, Tx, Be: Backend>(tx: &Tx, st: &St) -> R
where
    Tx: MakeMapRef<'tx, Be, S>,
    Tx::Impl: ReadOps,
{
    match w(8) {
        0 => read::<Tx, Be, A, _>(tx, &st.a, key_a(&st.a)),
        1 => read::<Tx, Be, B, _>(tx, &st.b, pick(&st.b, || (w(3) as u8, text()))),
        2 => read::<Tx, Be, C, _>(tx, &st.c, pick(&st.c, || OrderPreservingValue::new(num()))),
        3 => read::<Tx, Be, D, _>(tx, &st.d, pick(&st.d, bytes)),
        4 => read::<Tx, Be, E, _>(tx, &st.e, key_a(&st.e)),
        5 => read::<Tx, Be, F, _>(tx, &st.f, pick(&st.f, || (OrderPreservingValue::new(num() as u16), OrderPreservingValue::new(num() as u32)))),
        6 => {
            let p = w(3) as u8;
            let got: Vec<_> = tx.get::<B, _>().prefix_iter_decoded(&(p,))?.collect();
            let want: Vec<_> = st.b.values().filter(|x| x.0.0 == p).cloned().collect();
            check!(got == want, "S06/prefix", "B: prefix {p} = {got:?}, expected {want:?}");
            Ok(())
        }
        _ => {
            let p = OrderPreservingValue::new(num() as u16);
            let got: Vec<_> = tx.get::<F, _>().prefix_iter_keys(&(p,))?.collect();
            let want: Vec<_> = st.f.values().map(|x| x.0).filter(|x| x.0 == p).collect();
            check!(got == want, "S06/prefix", "F: prefix {p:?} = {got:?}, expected {want:?}");
            // numeric order
            let got: Vec<_> = tx.get::<C, _>().prefix_iter_keys(&())?.map(|k| k.inner()).collect();
            let mut want: Vec<_> = st.c.values().map(|x| x.0.inner()).collect();
            want.sort();
            check!(got == want, "S06/order", "C: keys {got:?} are not in numeric order");
            Ok(())
        }
    }
}
fn write_any<Be: Backend>(tx: &mut TransactionRw<'_, Be, S>, st: &mut St) -> R {
    let del = w(100) < SWARM.with(|s| s.1);
    fn v<T>(del: bool, f: impl FnOnce() -> T) -> Option<T> {
        if del { None } else { Some(f()) }
    }
    match w(6) {
        0 => {
            let k = key_a(&st.a);
            write::<Be, A, _>(tx, &mut st.a, k, v(del, num))
        }
        1 => {
            let k = pick(&st.b, || (w(3) as u8, text()));
            write::<Be, B, _>(tx, &mut st.b, k, v(del, bytes))
        }
        2 => {
            let k = pick(&st.c, || OrderPreservingValue::new(num()));
            write::<Be, C, _>(tx, &mut st.c, k, v(del, text))
        }
        3 => {
            let k = pick(&st.d, bytes);
            write::<Be, D, _>(tx, &mut st.d, k, v(del, || wchance(1, 2).then(|| (num() as u16, wchance(1, 2)))))
        }
        4 => {
            let k = key_a(&st.e);
            write::<Be, E, _>(tx, &mut st.e, k, v(del, num))
        }
        _ => {
            let k = pick(&st.f, || (OrderPreservingValue::new(num() as u16), OrderPreservingValue::new(num() as u32)));
            write::<Be, F, _>(tx, &mut st.f, k, v(del, || ()))
        }
    }
}
fn raw(st: &St) -> Vec<BTreeMap<Vec<u8>, Vec<u8>>> {
    fn r<K, V: Encode>(m: &M<K, V>) -> BTreeMap<Vec<u8>, Vec<u8>> {
        m.iter().map(|(k, x)| (k.clone(), x.1.encode())).collect()
    }
    vec![r(&st.a), r(&st.b), r(&st.c), r(&st.d), r(&st.e), r(&st.f)]
}
/// An error must be one we injected.
fn allowed(before: u64, e: storage_core::Error) {
    ev!("error: {e}");
    count("errors_reported", 1);
    check!(injected() > before, "S06/error_without_fault", "{e}");
}
fn dump<Be: Backend>(s: &Storage<Be, S>) -> Result<storage::raw::StorageContents<S>, storage_core::Error> {
    s.transaction_ro()?.dump_raw()
}
fn check_dump<Be: Backend>(s: &Storage<Be, S>, st: &St, class: &str) {
    set((0, 1));
    match dump(s) {
        Ok(d) => {
            let got: Vec<_> = d.into_values().collect();
            check!(got == raw(st), class, "raw contents differ: {got:?} vs {:?}", raw(st));
        }
        Err(e) => check_failed(class, format!("{e}")),
    }
}
/// One transaction; all or nothing.
fn tx<Be: Backend>(tx: Result<TransactionRw<'_, Be, S>, storage_core::Error>, st: &mut St, before: u64) {
    let mut tx = match tx {
        Ok(t) => t,
        Err(e) => return allowed(before, e),
    };
    let mut view = st.clone();
    let stubborn = wchance(1, 2);
    for _ in 0..1 + w(SWARM.with(|s| s.0)) {
        let b = injected();
        let r = if wchance(2, 3) { write_any(&mut tx, &mut view) } else { read_any::<_, Be>(&tx, &view) };
        match r {
            // an error injected below must come out
            Ok(()) => check!(injected() == b, "S06/error_swallowed", "an operation succeeded although the backend failed"),
            Err(e) => {
                allowed(b, e);
                if !stubborn {
                    tx.abort();
                    return;
                }
            }
        }
    }
    if wchance(1, 5) {
        tx.abort();
        count("op.abort", 1);
        return;
    }
    let b = injected();
    match tx.commit() {
        Ok(()) => {
            check!(injected() == b, "S06/error_swallowed", "commit succeeded although the backend failed");
            *st = view;
            ev!("committed");
            count("op.commit", 1);
        }
        Err(e) => allowed(b, e),
    }
}
fn history<Be: Backend + Clone>(mk: impl Fn() -> Be, mut shared: impl FnMut(&Storage<Flaky<Be>, S>, &mut St, u64) -> bool) {
    let mut s = Storage::<_, S>::new(Flaky(mk())).unwrap_or_else(|e| violation("S06/error_without_fault", format!("{e}")));
    let mut st = St::default();
    for _ in 0..2 + w(8) {
        let p = [(0, 1), (1, 4), (1, 15), (1, 40)][choose(Stream::Fault, 4) as usize];
        set(p);
        let before = injected();
        match w(6) {
            0 => match s.transaction_ro() {
                Err(e) => allowed(before, e),
                Ok(t) => {
                    for _ in 0..1 + w(4) {
                        let b = injected();
                        match read_any::<_, Flaky<Be>>(&t, &st) {
                            Ok(()) => check!(injected() == b, "S06/error_swallowed", "a read succeeded although the backend failed"),
                            Err(e) => allowed(b, e),
                        }
                    }
                }
            },
            1 => {
                // dump into a second storage
                let b = injected();
                match dump(&s) {
                    Err(e) => allowed(b, e),
                    Ok(d) => {
                        check!(injected() == b, "S06/error_swallowed", "a dump succeeded although the backend failed");
                        let b = injected();
                        match Storage::<_, S>::new_from_dump(Flaky(storage_inmemory::InMemory::new()), d) {
                            Err(e) => allowed(b, e),
                            Ok(s2) => {
                                check!(injected() == b, "S06/error_swallowed", "restoring a dump succeeded although the backend failed");
                                check_dump(&s2, &st, "S06/restored_dump");
                                count("op.dump_restore", 1);
                            }
                        }
                    }
                }
            }
            2 if shared(&s, &mut st, before) => {}
            _ => tx(s.transaction_rw(None), &mut st, before),
        }
        if wchance(1, 2) {
            check_dump(&s, &st, "S06/contents");
        }
    }
    check_dump(&s, &st, "S06/contents");
    let _ = S::desc_iter().count();
    nontrivial();
}
/// Per run: transaction length, percentage of deletes, map that gets most of the writes (6: none).
static SWARM: SimCell<(u64, u64, u64)> = SimCell::new((10, 30, 6));
pub fn run() {
    let sw = ([4, 10, 40][w(3) as usize], [5, 30, 50][w(3) as usize], w(9));
    SWARM.with(|s| *s = sw);
    if wchance(2, 3) {
        history(storage_inmemory::InMemory::new, |s, st, before| {
            let c = s.shallow_clone();
            tx(StorageSharedWrite::transaction_rw(&c, None), st, before);
            true
        });
    } else {
        history(|| storage_sqlite::Sqlite::new("/sim.db"), |_, _, _| false);
    }
}
