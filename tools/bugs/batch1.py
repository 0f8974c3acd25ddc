BUGS=[]
UT={'utils':'{ path = "@REPO@/utils" }'}
BUGS.append(dict(id='e01-first-handler-tracked',prop='E01',harness='h-utils',
 edits=[('utils/src/eventhandler.rs','''    fn broadcast_spawn_call(&self, event: E, handler: EventHandler<E>) {
        let tracker = self.wait_for_events.count_one();
        self.events_broadcaster.spawn(move || {
            let tracker = tracker;
            assert!(tracker.value() > 0);
            handler(event)
        })
    }

    pub fn broadcast(&self, event: E) {
        self.event_subscribers.iter().cloned().for_each(|handler| {
            let event = event.clone();
            self.broadcast_spawn_call(event, handler)
        })
    }''','''    pub fn broadcast(&self, event: E) {
        // The handlers of one event run one after another, so one tracker per event is enough.
        let mut tracker = Some(self.wait_for_events.count_one());
        self.event_subscribers.iter().cloned().for_each(|handler| {
            let event = event.clone();
            let tracker = tracker.take();
            self.events_broadcaster.spawn(move || {
                let _tracker = tracker;
                handler(event)
            })
        })
    }''')],
 needs='two or more subscribers, the later one slow, and a wait that overlaps the later handler only',
 breaks='wait_for_all_events returns while the second handler is still working on an event broadcast before the wait',
 deps=UT, shims=True, main='''
use std::{sync::{Arc, atomic::{AtomicUsize, Ordering}}, time::Duration};
use utils::eventhandler::EventsController;
fn main() {
    let mut c = EventsController::<u32>::new();
    let done = Arc::new(AtomicUsize::new(0));
    c.subscribe_to_events(Arc::new(|_| {}));
    let d = done.clone();
    c.subscribe_to_events(Arc::new(move |_| { std::thread::sleep(Duration::from_millis(150)); d.fetch_add(1, Ordering::SeqCst); }));
    for round in 1..=3 {
        c.broadcast(round as u32);
        c.wait_for_all_events();
        if done.load(Ordering::SeqCst) != round { println!("wait returned before the second handler finished"); std::process::exit(1); }
    }
}
'''))
BUGS.append(dict(id='e02-swap-remove-skips',prop='E02',harness='h-utils',
 edits=[('utils/networking/src/broadcaster.rs','''        self.senders.retain(|sender| sender.send(value.clone()).is_ok());''','''        let mut i = 0;
        while i < self.senders.len() {
            if self.senders[i].send(value.clone()).is_err() {
                self.senders.swap_remove(i);
            }
            i += 1;
        }''')],
 needs='a subscriber goes away while it is not the last in the list, and then a value is broadcast',
 breaks='the last subscriber silently misses the value during whose broadcast another subscriber is purged',
 deps={'utils-networking':'{ path = "@REPO@/utils/networking" }','tokio':'{ version = "1", features = ["full"] }'}, shims=True, gitvendor=True, main='''
use utils_networking::broadcaster::Broadcaster;
fn main() {
    let mut b = Broadcaster::<u32>::new();
    let r1 = b.subscribe(); let mut r2 = b.subscribe(); let mut r3 = b.subscribe();
    b.broadcast(&1);
    drop(r1);
    b.broadcast(&2); b.broadcast(&3);
    drop(b);
    for r in [&mut r2, &mut r3] {
        let mut got = vec![];
        while let Some(v) = r.blocking_recv() { got.push(v); }
        if got != [1, 2, 3] { println!("subscriber received {got:?}"); std::process::exit(1); }
    }
}
'''))
BUGS.append(dict(id='e03-first-activity-race',prop='E03',harness='h-utils',props=['E01'],
 edits=[('utils/src/counttracker.rs','''        source.fetch_add(
            <T as Atomic>::Type::one(),
            std::sync::atomic::Ordering::Release,
        );''','''        if source.load(std::sync::atomic::Ordering::Acquire) == <T as Atomic>::Type::zero() {
            // The first activity, no need for a read-modify-write operation.
            source.store(
                <T as Atomic>::Type::one(),
                std::sync::atomic::Ordering::Release,
            );
        } else {
            source.fetch_add(
                <T as Atomic>::Type::one(),
                std::sync::atomic::Ordering::Release,
            );
        }'''),('utils/src/counttracker.rs','''impl<T> CountTracker<T>
where
    T: AtomicNum,
    <T as Atomic>::Type: One,
    <T as Atomic>::Type: Zero,
{''','''impl<T> CountTracker<T>
where
    T: AtomicNum,
    <T as Atomic>::Type: One,
    <T as Atomic>::Type: Zero + PartialEq,
{''')],
 needs='two threads beginning the first activities at the same moment (both see a zero count)',
 breaks='one of two activities begun at once is not counted, so a wait returns while it is outstanding',
 deps=UT, shims=True, main='''
use std::sync::{Arc, Barrier, atomic::AtomicI32};
use utils::blockuntilzero::BlockUntilZero;
fn main() {
    let b = Arc::new(BlockUntilZero::<AtomicI32>::new());
    for _ in 0..20000 {
        let bar = Arc::new(Barrier::new(4));
        let hs: Vec<_> = (0..4).map(|_| { let (b, bar) = (b.clone(), bar.clone()); std::thread::spawn(move || {
            bar.wait();
            let t = b.count_one();
            bar.wait();
            let v = b.value();
            bar.wait();
            drop(t);
            v
        })}).collect();
        for h in hs { let v = h.join().unwrap(); if v != 4 { println!("4 activities outstanding, counted {v}"); std::process::exit(1); } }
    }
}
'''))
SUB={'subsystem':'{ path = "@REPO@/subsystem" }','tokio':'{ version = "1", features = ["rt-multi-thread", "sync", "time", "macros"] }','async-trait':'"0.1"'}
BUGS.append(dict(id='u01-mut-call-offloaded',prop='U01',harness='h-subsystem',props=['U02'],
 edits=[('subsystem/src/task.rs','''                    Action::Mut(call) => {
                        call(subsys.write().await.interface_mut()).await
                    },''','''                    Action::Mut(call) => {
                        if let Ok(mut subsys) = subsys.try_write() {
                            call(subsys.interface_mut()).await
                        } else {
                            // Reads are in progress, don't let them hold up the event loop.
                            let subsys = Arc::clone(&subsys);
                            tokio_spawn_in_join_set(
                                &mut worker_tasks,
                                async move {
                                    call(subsys.write().await.interface_mut()).await
                                }.in_current_span(),
                                &format!("{full_name}'s Action::Mut"),
                            );
                        }
                    },''')],
 needs='a read-only call still running when two mutating calls are submitted one after another, with the task of the first not scheduled before the read ends',
 breaks='mutating calls of one caller run out of order, and a read can run before an earlier mutating call',
 deps=SUB, shims=True, main='''
use std::sync::{Arc, Mutex};
use subsystem::Manager;
struct S { log: Arc<Mutex<Vec<u32>>> }
fn run(round: u32) -> Result<(), String> {
    // A single worker thread: a task that is spawned waits for its turn.
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    rt.block_on(async move {
        let log = Arc::new(Mutex::new(vec![]));
        let mut m = Manager::new("demo");
        let h = m.add_direct_subsystem("s", S { log: log.clone() });
        let trigger = m.make_shutdown_trigger();
        let main = m.main_in_task();
        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
        let r = h.call_async(move |_s| Box::pin(async move { let _ = rx.await; }));
        let mut calls = vec![];
        let mut reads = vec![];
        for i in 0..40u32 {
            calls.push(h.call_mut(move |s| { s.log.lock().unwrap().push(i); }));
            reads.push((i, h.call(move |s| s.log.lock().unwrap().clone())));
            if i == round % 40 { tokio::time::sleep(std::time::Duration::from_millis(2)).await; }
        }
        tokio::time::sleep(std::time::Duration::from_millis(5)).await;
        tx.send(()).unwrap();
        r.await.unwrap();
        for c in calls { c.await.unwrap(); }
        let mut bad = None;
        for (i, r) in reads { let seen = r.await.unwrap(); if !seen.contains(&i) { bad = Some(format!("read after change {i} saw {seen:?}")); } }
        trigger.initiate(); main.join().await;
        let l = log.lock().unwrap().clone();
        if l != (0..40).collect::<Vec<_>>() { return Err(format!("order of execution {l:?}")); }
        bad.map_or(Ok(()), Err)
    })
}
fn main() {
    for round in 0..200 { if let Err(e) = run(round) { println!("{e}"); std::process::exit(1); } }
}
'''))
BUGS.append(dict(id='u03-signal-all-then-join',prop='U03',harness='h-subsystem',
 edits=[('subsystem/src/manager/manager_impl.rs','''        for subsys in subsystems.into_iter().rev() {
            subsys.shutdown(self.config.shutdown_timeout_per_subsystem).await;
        }
''','''        let shutdowns = subsystems
            .into_iter()
            .rev()
            .map(|subsys| subsys.shutdown(self.config.shutdown_timeout_per_subsystem));
        futures::future::join_all(shutdowns).await;
''')],
 needs='a subsystem that uses an earlier-registered one from its shutdown hook, or has a slow shutdown',
 breaks='all subsystems are stopped at once, so that an earlier-registered one is gone while a later one still needs it',
 deps=SUB, shims=True, main='''
use subsystem::{Handle, Manager, Subsystem};
struct A(u32);
struct B { a: Handle<A>, res: std::sync::mpsc::Sender<bool> }
#[async_trait::async_trait]
impl Subsystem for B {
    type Interface = Self;
    fn interface_ref(&self) -> &Self { self }
    fn interface_mut(&mut self) -> &mut Self { self }
    fn has_background_work(&self) -> bool { false }
    fn perform_background_work_unit(&mut self) {}
    async fn shutdown(self) {
        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        let _ = self.res.send(self.a.call_mut(|a| { a.0 += 1; a.0 }).await.is_ok());
    }
}
fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    rt.block_on(async move {
        let mut m = Manager::new("demo");
        let a = m.add_direct_subsystem("a", A(0));
        let _b = m.add_subsystem("b", B { a, res: tx });
        let t = m.make_shutdown_trigger();
        let main = m.main_in_task();
        t.initiate(); main.join().await;
    });
    if rx.recv() != Ok(true) { println!("the earlier subsystem was gone during the shutdown of the later one"); std::process::exit(1); }
}
'''))
BUGS.append(dict(id='u04-init-panic-unnoticed',prop='U04',harness='h-subsystem',
 edits=[('subsystem/src/task.rs','''    // Make sure that we send the shutdown signal even in case of a panic.
    let _shutdown_sender = OnceDestructor::new({
        let full_name = &full_name;
        move || {
            let _ = task_shut_down_tx.send(());
            log::info!("Subsystem {full_name} terminated");
        }
    });

''',''),('subsystem/src/task.rs','''            log::error!("Subsystem {full_name} failed to initialize: {err}");
            return;
        }
    };
''','''            log::error!("Subsystem {full_name} failed to initialize: {err}");
            let _ = task_shut_down_tx.send(());
            return;
        }
    };

    // Make sure that we send the shutdown signal even in case of a panic.
    let _shutdown_sender = OnceDestructor::new({
        let full_name = &full_name;
        move || {
            let _ = task_shut_down_tx.send(());
            log::info!("Subsystem {full_name} terminated");
        }
    });
''')],
 needs='a subsystem whose initialisation panics (rather than failing with an error) while others run',
 breaks='the panic during initialisation does not bring the system down, the main entry point never returns',
 deps=SUB, shims=True, main='''
use subsystem::Manager;
#[derive(Debug)] struct E; impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "e") } } impl std::error::Error for E {}
struct A;
fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let ok = rt.block_on(async move {
        let mut m = Manager::new("demo");
        let _a = m.add_direct_subsystem("a", A);
        let _b = m.add_custom_subsystem::<subsystem::wrappers::Direct<A>, _, _, E>("b", |_, _| async { 
            tokio::time::sleep(std::time::Duration::from_millis(50)).await;
            if std::env::args().count() > 0 { panic!("init") } Err(E) });
        let main = tokio::spawn(m.main());
        tokio::time::timeout(std::time::Duration::from_secs(10), main).await.is_ok()
    });
    if !ok { println!("main still running 10 s after a subsystem panicked during initialisation"); std::process::exit(1); }
    std::process::exit(0);
}
'''))
ST={'storage-core':'{ path = "@REPO@/storage/core" }','storage-inmemory':'{ path = "@REPO@/storage/inmemory" }','storage-sqlite':'{ path = "@REPO@/storage/sqlite" }'}
PRE='''
use storage_core::{backend::*, types::construct::db_desc, DbMapDesc, DbMapId};
#[allow(unused)] const M: DbMapId = DbMapId::new(0);
#[allow(unused)] fn desc() -> storage_core::DbDesc { db_desc(["a", "b"].into_iter().map(DbMapDesc::new)) }
#[allow(unused)] fn fail(s: &str) -> ! { println!("{s}"); std::process::exit(1) }
'''
BUGS.append(dict(id='s01-del-forgets-own-put',prop='S01',harness='h-storage',props=['S03'],
 edits=[('storage/core/src/adaptor/locking.rs','''        self.update(map_id, key.to_vec(), None)
''','''        // Take back our own put if there was one, otherwise remember the deletion.
        match self.deltas[map_id].remove(key) {
            Some(Some(_)) => Ok(()),
            Some(None) | None => self.update(map_id, key.to_vec(), None),
        }
''')],
 needs='a transaction that overwrites an already committed key and then deletes it',
 breaks='the delete is lost: after commit the old committed value is still there',
 deps=ST, shims=True, gitvendor=True, main=PRE+'''
fn main() {
    let mut s = storage_inmemory::InMemory::new().open(desc()).unwrap();
    let mut t = BackendImpl::transaction_rw(&mut s, None).unwrap();
    t.put(M, b"k".to_vec(), b"old".to_vec()).unwrap(); t.commit().unwrap();
    let mut t = BackendImpl::transaction_rw(&mut s, None).unwrap();
    t.put(M, b"k".to_vec(), b"new".to_vec()).unwrap(); t.del(M, b"k").unwrap();
    if t.get(M, b"k").unwrap().is_some() { fail("deleted key is visible in the transaction") }
    t.commit().unwrap();
    let t = s.transaction_ro().unwrap();
    if t.get(M, b"k").unwrap().is_some() { fail("deleted key is there after the commit") }
}
'''))
BUGS.append(dict(id='s03-scan-misses-own-put-at-bound',prop='S03',harness='h-storage',
 edits=[('storage/core/src/adaptor/locking.rs','''        let delta_iter = self.deltas[map_id].range(key..);
''','''        let delta_iter = self.deltas[map_id]
            .range((std::ops::Bound::Excluded(key), std::ops::Bound::Unbounded));
''')],
 needs='an own uncommitted put or delete of exactly the key a scan starts at',
 breaks='a scan from a key misses (or shows the stale value of) the first key when it was changed in the same transaction',
 deps=ST, shims=True, gitvendor=True, main=PRE+'''
fn main() {
    let mut s = storage_inmemory::InMemory::new().open(desc()).unwrap();
    let mut t = BackendImpl::transaction_rw(&mut s, None).unwrap();
    t.put(M, b"a".to_vec(), b"1".to_vec()).unwrap(); t.put(M, b"b".to_vec(), b"2".to_vec()).unwrap();
    let got: Vec<_> = t.greater_equal_iter(M, b"a".to_vec()).unwrap().map(|x| x.0).collect();
    if got != [b"a".to_vec(), b"b".to_vec()] { fail("scan from a key misses the key") }
}
'''))
BUGS.append(dict(id='s04-memory-journal',prop='S04',harness='h-storage',
 edits=[('storage/sqlite/src/lib.rs','''        connection.pragma_update(None, "locking_mode", "exclusive")?;
''','''        connection.pragma_update(None, "locking_mode", "exclusive")?;
        // Nobody else can see the journal under the exclusive lock
        connection.pragma_update(None, "journal_mode", "memory")?;
''')],
 needs='the process dying while a transaction is being written to the database file',
 breaks='after a crash in the middle of writing a transaction the database holds a mixture of old and new pages',
 deps=ST, shims=True, gitvendor=True, main=PRE+'''
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 {
        // the process that dies in the middle of a transaction larger than the page cache
        let mut s = storage_sqlite::Sqlite::new(&a[2]).open(desc()).unwrap();
        let mut t = s.transaction_rw(None).unwrap();
        for i in 0u32..20000 { t.put(M, i.to_be_bytes().to_vec(), vec![if a[1] == "init" { 1 } else { 2 }; 1000]).unwrap(); }
        if a[1] == "init" { t.commit().unwrap(); std::process::exit(0) }
        std::process::abort();
    }
    let dir = std::env::temp_dir().join("db"); std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("x.sqlite");
    for mode in ["init", "die"] {
        let _ = std::process::Command::new(std::env::current_exe().unwrap()).arg(mode).arg(&p).status().unwrap();
    }
    let s = match storage_sqlite::Sqlite::new(&p).open(desc()) { Ok(s) => s, Err(e) => fail(&format!("cannot be reopened: {e}")) };
    let t = s.transaction_ro().unwrap();
    for i in 0u32..20000 {
        match t.get(M, &i.to_be_bytes()) { Ok(Some(v)) if v[..] == vec![1u8; 1000][..] => {}, x => fail(&format!("key {i} wrong after the crash: {:?}", x.map(|v| v.map(|v| v[0])))) }
    }
}
'''))
BUGS.append(dict(id='s05-scan-error-swallowed',prop='S05',harness='h-storage',
 edits=[('storage/sqlite/src/lib.rs','''        let mut kv = Vec::new();
        while let Some(row) = rows.next().map_err(process_sqlite_error)? {
            let key = row.get::<usize, Vec<u8>>(0).map_err(process_sqlite_error)?;
            if key''','''        let mut kv = Vec::new();
        while let Ok(Some(row)) = rows.next() {
            let key = row.get::<usize, Vec<u8>>(0).map_err(process_sqlite_error)?;
            if key''')],
 needs='a disk read that fails in the middle of a prefix scan, after its first rows',
 breaks='a scan that hits a disk error is silently cut short and reported as a success',
 deps=ST, shims=True, gitvendor=True, main=PRE+'''
use std::io::{Seek, Write};
fn main() {
    let dir = std::env::temp_dir().join("db"); std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("x.sqlite");
    let n = 3000u32;
    {
        let mut s = storage_sqlite::Sqlite::new(&p).open(desc()).unwrap();
        let mut t = s.transaction_rw(None).unwrap();
        for i in 0..n { t.put(M, i.to_be_bytes().to_vec(), vec![7; 500]).unwrap(); }
        t.commit().unwrap();
    }
    let s = storage_sqlite::Sqlite::new(&p).open(desc()).unwrap();
    let t = s.transaction_ro().unwrap();
    if t.prefix_iter(M, vec![]).unwrap().count() != n as usize { fail("scan incomplete") }
    drop(t); drop(s);
    // damage pages in the second half of the file: reading them must fail, not shorten the scan
    let len = std::fs::metadata(&p).unwrap().len() / 4096;
    let mut f = std::fs::OpenOptions::new().write(true).open(&p).unwrap();
    for pg in len / 2..len { f.seek(std::io::SeekFrom::Start(pg * 4096)).unwrap(); f.write_all(&[0xff; 4096]).unwrap(); }
    drop(f);
    let Ok(s) = storage_sqlite::Sqlite::new(&p).open(desc()) else { return };
    let Ok(t) = s.transaction_ro() else { return };
    match t.prefix_iter(M, vec![]) { Ok(it) => { let c = it.count(); if c != n as usize { fail(&format!("scan of {n} entries reported success with {c}")) } } Err(_) => {} }
}
'''))
