//! The simulated subsystem: consistent pair of counters, optional background work, shutdown hook.
use crate::model::*;
use detsim::*;
use futures::future::BoxFuture;
use std::time::Duration;
use subsystem::Handle;
use subsystem::blocking::BlockingHandle;

#[derive(Clone, Default)]
pub struct Hook {
    /// earlier subsystems to call from the hook
    pub calls: Vec<Handle<Sub>>,
    pub pause: u64,
    pub stuck: bool,
    pub panic: bool,
}
pub struct Sub {
    pub id: usize,
    pub a: u64,
    pub b: u64,
    pub bg: u64,
    pub bg_panic: bool,
    pub hook: Hook,
}
impl Sub {
    pub fn new(id: usize) -> Self {
        Sub { id, a: 0, b: 0, bg: 0, bg_panic: false, hook: Hook::default() }
    }
}
impl Drop for Sub {
    fn drop(&mut self) {
        if in_sim() {
            let id = self.id;
            m(|m| m.dropped.push(id));
        }
    }
}
pub async fn pause(kind: u64) {
    match kind {
        0 => {}
        1 => tokio::task::yield_now().await,
        2 => {
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
        }
        3 => std::thread::yield_now(),
        k => tokio::time::sleep(Duration::from_millis(k)).await,
    }
}
#[async_trait::async_trait]
impl subsystem::Subsystem for Sub {
    type Interface = Sub;
    fn interface_ref(&self) -> &Sub {
        self
    }
    fn interface_mut(&mut self) -> &mut Sub {
        self
    }
    fn perform_background_work_unit(&mut self) {
        let id = self.id;
        ev!("sub {id}: background unit");
        check!(self.bg > 0, "U02/background", "background work of {id} performed although there is none");
        m(|m| {
            check!(m.running_mut.get(&id).copied().unwrap_or(0) + m.running_ref.get(&id).copied().unwrap_or(0) == 0, "U02/exclusion", "background work of {id} runs while a call is running");
            check!(!m.hook_begin.contains(&id), "U03/background-after-hook", "background work of {id} after its shutdown hook began");
            *m.running_mut.entry(id).or_default() += 1;
        });
        self.a += 1;
        std::thread::yield_now();
        if self.bg_panic && self.bg == 1 {
            go_down("panic in background work");
            panic!("injected: background work");
        }
        self.b += 1;
        self.bg -= 1;
        m(|m| {
            *m.running_mut.get_mut(&id).unwrap() -= 1;
            m.bg_left.insert(id, self.bg);
        });
    }
    fn has_background_work(&self) -> bool {
        self.bg > 0
    }
    async fn shutdown(self) {
        let id = self.id;
        ev!("sub {id}: hook begins");
        m(|m| {
            check!(m.down, "U03/unrequested", "subsystem {id} was shut down although nobody asked for it");
            check!(!m.hook_begin.contains(&id), "U03/hook-twice", "the shutdown hook of {id} ran twice");
            let (a, b) = (m.running_mut.get(&id).copied().unwrap_or(0), m.running_ref.get(&id).copied().unwrap_or(0));
            check!(a + b == 0, "U03/hook-too-early", "the shutdown hook of {id} began while {a} mutating and {b} read-only calls were running");
            m.hook_begin.push(id);
        });
        pause(self.hook.pause).await;
        for h in &self.hook.calls {
            let c = new_caller();
            let r = call_ref(h, c, self.hook.pause % 3).await;
            check!(r.is_ok(), "U03/earlier-unavailable", "subsystem {id} could not call an earlier subsystem from its shutdown hook: {r:?}");
        }
        if self.hook.panic {
            panic!("injected: shutdown hook");
        }
        if self.hook.stuck {
            count("fault.stuck_hook", 1);
            std::future::pending::<()>().await;
        }
        m(|m| m.hook_end.push(id));
        ev!("sub {id}: hook ends");
    }
}
fn mut_body<'a>(s: &'a mut Sub, caller: u64, seq: usize, p: u64) -> BoxFuture<'a, Answer> {
    Box::pin(async move {
        begin(s.id, caller, seq, Kind::Mut);
        check!(s.a == s.b, "U02/partial", "mutating call sees a half-done update of {}", s.id);
        s.a += 1;
        pause(p).await;
        s.b += 1;
        check!(s.a == s.b, "U02/exclusion", "another update interfered with a mutating call on {}", s.id);
        end(s.id, caller, seq, Kind::Mut);
        Answer { sub: s.id, caller, seq, version: s.b }
    })
}
fn ref_body<'a>(s: &'a Sub, caller: u64, seq: usize, p: u64) -> BoxFuture<'a, Answer> {
    Box::pin(async move {
        begin(s.id, caller, seq, Kind::Ref);
        let v = (s.a, s.b);
        check!(v.0 == v.1, "U02/partial", "read-only call sees a half-done update of {}: {v:?}", s.id);
        pause(p).await;
        check!((s.a, s.b) == v, "U02/exclusion", "the state of {} changed during a read-only call", s.id);
        end(s.id, caller, seq, Kind::Ref);
        Answer { sub: s.id, caller, seq, version: s.b }
    })
}
fn mut_now(s: &mut Sub, caller: u64, seq: usize) -> Answer {
    begin(s.id, caller, seq, Kind::Mut);
    check!(s.a == s.b, "U02/partial", "mutating call sees a half-done update of {}", s.id);
    s.a += 1;
    std::thread::yield_now();
    s.b += 1;
    check!(s.a == s.b, "U02/exclusion", "another update interfered with a mutating call on {}", s.id);
    end(s.id, caller, seq, Kind::Mut);
    Answer { sub: s.id, caller, seq, version: s.b }
}
fn ref_now(s: &Sub, caller: u64, seq: usize) -> Answer {
    begin(s.id, caller, seq, Kind::Ref);
    let v = (s.a, s.b);
    check!(v.0 == v.1, "U02/partial", "read-only call sees a half-done update of {}: {v:?}", s.id);
    std::thread::yield_now();
    check!((s.a, s.b) == v, "U02/exclusion", "the state of {} changed during a read-only call", s.id);
    end(s.id, caller, seq, Kind::Ref);
    Answer { sub: s.id, caller, seq, version: s.b }
}
pub type R = Result<Answer, subsystem::error::CallError>;
/// Submits now, returns the pending answer.
pub fn start(sub: usize, h: &Handle<Sub>, caller: u64, k: Kind, asynch: bool, p: u64) -> (usize, subsystem::CallResult<Answer>) {
    let seq = submit(sub, caller, k);
    let r = match (k, asynch) {
        (Kind::Mut, true) => h.call_async_mut(move |s| mut_body(s, caller, seq, p)),
        (Kind::Mut, false) => h.call_mut(move |s| mut_now(s, caller, seq)),
        (Kind::Ref, true) => h.call_async(move |s| ref_body(s, caller, seq, p)),
        (Kind::Ref, false) => h.call(move |s| ref_now(s, caller, seq)),
    };
    (seq, r)
}
pub fn start_blocking(sub: usize, h: &BlockingHandle<Sub>, caller: u64, k: Kind, asynch: bool, p: u64) -> R {
    let seq = submit(sub, caller, k);
    let r = match (k, asynch) {
        (Kind::Mut, true) => h.call_async_mut(move |s| mut_body(s, caller, seq, p)),
        (Kind::Mut, false) => h.call_mut(move |s| mut_now(s, caller, seq)),
        (Kind::Ref, true) => h.call_async(move |s| ref_body(s, caller, seq, p)),
        (Kind::Ref, false) => h.call(move |s| ref_now(s, caller, seq)),
    };
    answered(sub, caller, seq, &r);
    r
}
/// Fire and forget. Returns the sequence number.
pub fn fire(sub: usize, h: &Handle<Sub>, caller: u64, k: Kind, asynch: bool, p: u64) -> usize {
    let seq = submit(sub, caller, k);
    let so = h.as_submit_only();
    let r = match (k, asynch) {
        (Kind::Mut, true) => so.submit_async_mut(move |s| {
            Box::pin(async move {
                mut_body(s, caller, seq, p).await;
            })
        }),
        (Kind::Mut, false) => so.submit_mut(move |s| {
            mut_now(s, caller, seq);
        }),
        (Kind::Ref, true) => so.submit_async(move |s| {
            Box::pin(async move {
                ref_body(s, caller, seq, p).await;
            })
        }),
        (Kind::Ref, false) => so.submit(move |s| {
            ref_now(s, caller, seq);
        }),
    };
    if let Err(e) = r {
        answered(sub, caller, seq, &Err(e.into()));
    }
    seq
}
pub async fn finish(sub: usize, caller: u64, seq: usize, r: subsystem::CallResult<Answer>) -> R {
    let r = r.await;
    answered(sub, caller, seq, &r);
    r
}
/// A read call on a subsystem whose index is not known to the caller (index is inside the answer).
pub async fn call_ref(h: &Handle<Sub>, caller: u64, p: u64) -> R {
    h.call_async(move |s| {
        let seq = submit(s.id, caller, Kind::Ref);
        ref_body(s, caller, seq, p)
    })
    .await
}
