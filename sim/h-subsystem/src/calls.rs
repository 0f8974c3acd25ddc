//! U01/U02: clients of every kind calling a few subsystems, with an orderly shutdown at some moment.
use crate::model::*;
use crate::subs::*;
use detsim::*;
use subsystem::{Handle, Manager, ManagerConfig, blocking::BlockingHandle};
use utils::shallow_clone::ShallowClone as _;

pub fn runtime() -> tokio::runtime::Runtime {
    let flavour = choose(Stream::Work, 4);
    if flavour == 0 {
        tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(flavour as usize).enable_time().build().unwrap()
    }
}
fn multi(rt: &tokio::runtime::Runtime) -> bool {
    rt.handle().runtime_flavor() == tokio::runtime::RuntimeFlavor::MultiThread
}
#[derive(Clone, Debug)]
pub struct Op {
    sub: usize,
    kind: Kind,
    asynch: bool,
    how: u64,
    p: u64,
}
pub fn plan(nsubs: usize, max: u64) -> Vec<Op> {
    let n = 1 + small(Stream::Work, max);
    (0..n)
        .map(|_| Op {
            sub: choose(Stream::Work, nsubs as u64) as usize,
            kind: if choose(Stream::Work, 2) == 0 { Kind::Mut } else { Kind::Ref },
            asynch: choose(Stream::Work, 2) == 1,
            how: choose(Stream::Work, 8),
            p: choose(Stream::Work, 7),
        })
        .collect()
}
/// Runs a plan as an async client.
pub async fn client(handles: Vec<Handle<Sub>>, plan: Vec<Op>, can_block: bool) {
    let me = new_caller();
    let mut pending = vec![];
    for o in plan {
        let h = &handles[o.sub];
        match o.how {
            // wait for the answer now
            0 | 1 => {
                let (seq, r) = start(o.sub, h, me, o.kind, o.asynch, o.p);
                let _ = finish(o.sub, me, seq, r).await;
            }
            // keep it pending
            2 | 3 => {
                let (seq, r) = start(o.sub, h, me, o.kind, o.asynch, o.p);
                pending.push((o.sub, seq, r));
            }
            // lose interest in the answer
            4 => {
                let (_, r) = start(o.sub, h, me, o.kind, o.asynch, o.p);
                count("fault.answer_dropped", 1);
                drop(r);
            }
            5 => {
                fire(o.sub, h, me, o.kind, o.asynch, o.p);
            }
            6 if can_block => {
                let _ = start_blocking(o.sub, &BlockingHandle::new(h.shallow_clone()), me, o.kind, o.asynch, o.p);
            }
            // a call that itself calls an earlier subsystem
            7 if o.sub > 0 => {
                let h0 = handles[o.sub - 1].clone();
                let inner = o.sub - 1;
                let seq = submit(o.sub, me, Kind::Mut);
                let p = o.p;
                let sub = o.sub;
                let r = h.call_async_mut(move |s| {
                    Box::pin(async move {
                        begin(sub, me, seq, Kind::Mut);
                        s.a += 1;
                        let c = new_caller();
                        let (q, r) = start(inner, &h0, c, Kind::Mut, true, p);
                        let r = finish(inner, c, q, r).await;
                        check!(r.is_ok(), "U03/earlier-unavailable", "a running call of subsystem {sub} could not call subsystem {inner}: {r:?}");
                        s.b += 1;
                        end(sub, me, seq, Kind::Mut);
                        Answer { sub, caller: me, seq, version: s.b }
                    })
                });
                let _ = finish(o.sub, me, seq, r).await;
            }
            _ => {
                tokio::task::yield_now().await;
                let (seq, r) = start(o.sub, h, me, o.kind, o.asynch, o.p);
                let _ = finish(o.sub, me, seq, r).await;
            }
        }
    }
    for (sub, seq, r) in pending {
        let _ = finish(sub, me, seq, r).await;
    }
    // Barrier: an answered mutating call means that everything before it was taken.
    for (i, h) in handles.iter().enumerate() {
        let (seq, r) = start(i, h, me, Kind::Mut, false, 0);
        let r = finish(i, me, seq, r).await;
        if r.is_ok() {
            m(|m| {
                BARRIERS.with(|b| b.push((i, me, seq)));
                let _ = m;
            });
        }
    }
}
pub static BARRIERS: SimCell<Vec<(usize, u64, usize)>> = SimCell::new(Vec::new());
pub fn thread_client(handles: Vec<Handle<Sub>>, plan: Vec<Op>) {
    let me = new_caller();
    for o in plan {
        let b = BlockingHandle::new(handles[o.sub].shallow_clone());
        if o.how == 5 {
            fire(o.sub, &handles[o.sub], me, o.kind, o.asynch, o.p);
        } else {
            let _ = start_blocking(o.sub, &b, me, o.kind, o.asynch, o.p);
        }
    }
}
/// After main has returned: everything taken before an answered barrier ran exactly once.
pub fn final_checks(n: usize) {
    m(|m| {
        for (i, c, s) in BARRIERS.with(|b| b.clone()) {
            for (q, o) in m.ops[&(i, c)][..s].iter().enumerate() {
                check!(o.1 == St::Done, "U01/lost-call", "call ({c},{q}) on subsystem {i} was never executed although a later call of the same caller was ({:?})", o.1);
            }
        }
        for ((i, c), v) in &m.ops {
            for (q, o) in v.iter().enumerate() {
                check!(o.1 != St::Running, "U03/unfinished-call", "call ({c},{q}) on subsystem {i} was still running when the manager finished");
            }
        }
        for i in 0..n {
            check!(m.dropped.iter().filter(|x| **x == i).count() == 1, "U03/leaked", "subsystem {i} was not released when the manager finished");
        }
    })
}
pub fn calls() {
    random_schedule_config();
    set_limits(40_000, Some("U01/stuck"));
    set_hang_class("U01/stuck");
    let n = 1 + choose(Stream::Work, 3) as usize;
    let rt = runtime();
    let multi = multi(&rt);
    let mut mgr = Manager::new_with_config(ManagerConfig::new("sim").disable_shutdown_timeout());
    let mut handles = vec![];
    for i in 0..n {
        let bg = small(Stream::Work, 6);
        let mut s = Sub::new(i);
        s.bg = bg;
        m(|m| m.bg_left.insert(i, bg));
        handles.push(mgr.add_direct_or(i, s));
    }
    let trig = mgr.make_shutdown_trigger();
    let nc = 1 + choose(Stream::Work, 4);
    let nt = if multi { choose(Stream::Work, 3) } else { 0 };
    let plans: Vec<_> = (0..nc).map(|_| plan(n, 8)).collect();
    let tplans: Vec<_> = (0..nt).map(|_| plan(n, 6)).collect();
    let ops = plans.iter().chain(&tplans).map(|p| p.len()).sum::<usize>();
    // early: shut down while clients are still busy
    let early = choose(Stream::Work, 3) == 0;
    let early_delay = choose(Stream::Work, 40);
    let threads: Vec<_> = tplans
        .into_iter()
        .map(|p| {
            let hs = handles.clone();
            std::thread::spawn(move || thread_client(hs, p))
        })
        .collect();
    let hs = handles.clone();
    rt.block_on(async move {
        let main = tokio::spawn(async move {
            mgr.main().await;
            m(|m| m.main_done = true);
        });
        let cs: Vec<_> = plans.into_iter().map(|p| tokio::spawn(client(hs.clone(), p, multi))).collect();
        let join_clients = async move {
            for c in cs {
                c.await.unwrap();
            }
        };
        let threads_done = async move {
            if !threads.is_empty() {
                tokio::task::spawn_blocking(move || {
                    for t in threads {
                        t.join().unwrap();
                    }
                })
                .await
                .unwrap();
            }
        };
        if early {
            count("early_shutdowns", 1);
            for _ in 0..early_delay {
                tokio::task::yield_now().await;
            }
            go_down("early request");
            trig.initiate();
            join_clients.await;
            threads_done.await;
        } else {
            join_clients.await;
            threads_done.await;
            // idle now: background work must get done
            loop {
                if m(|m| m.bg_left.values().all(|x| *x == 0)) {
                    break;
                }
                tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            }
            go_down("request");
            trig.initiate();
        }
        main.await.unwrap();
        // stopped subsystems refuse calls at once
        for (i, h) in hs.iter().enumerate() {
            let c = new_caller();
            let (q, r) = start(i, h, c, Kind::Mut, true, 1);
            let r = finish(i, c, q, r).await;
            check!(r.is_err(), "U01/answered-after-stop", "a call to stopped subsystem {i} was answered");
        }
    });
    drop(rt);
    check_order(n);
    final_checks(n);
    let (ov, oks, errs) = m(|m| (m.overlaps, m.oks, m.errs));
    count("overlapping_reads", ov);
    count("answers", oks);
    count("refused", errs);
    if ops > 2 && nc + nt > 1 {
        nontrivial();
    }
    set_sample(format!("{n} subsystems, {nc} async + {nt} thread clients, {ops} operations, early shutdown: {early}"));
}
/// Hooks ran exactly once each, one after the other, in reverse order of registration.
pub fn check_order(n: usize) {
    m(|m| {
        let exp: Vec<usize> = (0..n).rev().collect();
        check!(m.hook_begin == exp && m.hook_end == exp, "U03/order", "shutdown hooks began in order {:?} and ended in order {:?}, expected {exp:?}", m.hook_begin, m.hook_end);
    })
}
pub trait AddSub {
    fn add_direct_or(&mut self, i: usize, s: Sub) -> Handle<Sub>;
}
pub const NAMES: [&str; 8] = ["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7"];
impl AddSub for Manager {
    fn add_direct_or(&mut self, i: usize, s: Sub) -> Handle<Sub> {
        if choose(Stream::Work, 2) == 0 {
            self.add_subsystem(NAMES[i], s)
        } else {
            let p = choose(Stream::Work, 6);
            self.add_custom_subsystem(NAMES[i], move |_, _| async move {
                pause(p).await;
                Ok::<_, std::convert::Infallible>(s)
            })
        }
    }
}
